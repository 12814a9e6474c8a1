------------------------------- MODULE WindEst -------------------------------
(* Life cycle and sample gating of the stand-alone wind estimator.  Times in us; numbers in fixed point. *)
EXTENDS FixMat
CONSTANTS FusePeriod, PredPeriod, RejectMax, MinSpeed2

VARIABLES valid, rst,
          tTas, tBeta,     \* last accepted call of each kind
          tPred,           \* last covariance prediction (0: none yet)
          rejTas, rejBeta, \* since when continuously rejected (0: not)
          act              \* what the last call did
wvars == <<valid, rst, tTas, tBeta, tPred, rejTas, rejBeta, act>>

Init == valid = FALSE /\ rst = FALSE /\ tTas = 0 /\ tBeta = 0 /\ tPred = 0 /\ rejTas = 0 /\ rejBeta = 0 /\ act = "none"

(* speed2: squared horizontal ground speed *)
CanStart(speed2) == speed2 >= MinSpeed2
TryStart(fast) ==
  IF fast
  THEN valid' = TRUE /\ rst' = TRUE /\ rejTas' = 0 /\ rejBeta' = 0 /\ act' = "start" /\ UNCHANGED <<tTas, tBeta, tPred>>
  ELSE valid' = FALSE /\ act' = "nostart" /\ UNCHANGED <<rst, rejTas, rejBeta, tTas, tBeta, tPred>>

Update(t) ==
  IF ~valid THEN act' = "idle" /\ UNCHANGED <<valid, rst, tTas, tBeta, tPred, rejTas, rejBeta>>
  ELSE /\ rst' = FALSE
       /\ UNCHANGED <<valid, tTas, tBeta, rejTas, rejBeta>>
       /\ IF tPred = 0 THEN tPred' = t /\ act' = "idle"
          ELSE IF t - tPred < PredPeriod THEN UNCHANGED tPred /\ act' = "idle"
          ELSE tPred' = t /\ act' = "predict"

(* one airspeed (k = "tas") or sideslip (k = "beta") call.
   fast: ground speed allows a (re)start; usable: geometry allows an innovation;
   reject: the innovation exceeds its gate; ill: bad innovation variance; sane: the updated estimate passes the sanity checks *)
Rej(k) == IF k = "tas" THEN rejTas ELSE rejBeta
TLast(k) == IF k = "tas" THEN tTas ELSE tBeta
SetT(k, t) == IF k = "tas" THEN tTas' = t /\ UNCHANGED tBeta ELSE tBeta' = t /\ UNCHANGED tTas
SetRej(k, t) == IF k = "tas" THEN rejTas' = t /\ UNCHANGED rejBeta ELSE rejBeta' = t /\ UNCHANGED rejTas
Fuse(k, t, fast, usable, reject, ill, sane) ==
  IF ~valid THEN TryStart(fast)
  ELSE IF t - TLast(k) < FusePeriod
  THEN act' = "skip" /\ UNCHANGED <<valid, rst, tTas, tBeta, tPred, rejTas, rejBeta>>
  ELSE /\ SetT(k, t) /\ UNCHANGED tPred
       /\ IF ~usable THEN act' = "unusable" /\ UNCHANGED <<valid, rst, rejTas, rejBeta>>
          ELSE LET since == IF reject THEN (IF Rej(k) = 0 THEN t ELSE Rej(k)) ELSE 0
                   reinit == (since # 0 /\ t - since > RejectMax) \/ ill
               IN IF reinit
                  THEN IF fast
                       THEN valid' = TRUE /\ rst' = TRUE /\ rejTas' = 0 /\ rejBeta' = 0 /\ act' = "restart"
                       ELSE valid' = FALSE /\ act' = "lost" /\ UNCHANGED rst /\ SetRej(k, since)
                  ELSE /\ SetRej(k, since) /\ UNCHANGED rst
                       /\ IF reject THEN act' = "reject" /\ UNCHANGED valid
                          ELSE act' = "fuse" /\ valid' = sane
-----------------------------------------------------------------------------
RejectBounded == \A t \in {rejTas, rejBeta} : t # 0 => (t <= tTas \/ t <= tBeta)
ResetMeansRestart == [][ (rst' /\ ~rst) => act' \in {"start", "restart"} ]_wvars
ValidOnlyByStart == [][ (valid' /\ ~valid) => act' \in {"start", "restart"} ]_wvars
RateLimit == [][ act' \in {"fuse", "reject"} =>
                   (tTas' # tTas => tTas' - tTas >= FusePeriod) /\ (tBeta' # tBeta => tBeta' - tBeta >= FusePeriod) ]_wvars
PredictLimit == [][ act' = "predict" => tPred' - tPred >= PredPeriod ]_wvars
NoLongRejection == [][ act' = "reject" =>
     (tTas' # tTas => tTas' - rejTas' <= RejectMax) /\ (tBeta' # tBeta => tBeta' - rejBeta' <= RejectMax) ]_wvars
=============================================================================
