----------------------------- MODULE RangeFinder -----------------------------
(* When may a range finder reading be used?  Times in us, ranges in mm, cosines scaled by 10^4. *)
EXTENDS FixMat
CONSTANTS Stale, LpfDiv, LpfMax, LpfCap, StuckAfter, StuckVar, MinSeed

VARIABLES smp,     \* last sample received: [t, rng, q]
          ready,   \* it is new
          valid, regular,
          tBad,    \* last time a zero-quality sample was checked
          tValid,  \* time stamp of the last valid sample
          lpf,     \* low-passed age of the newest sample
          stuck,   \* [is, lo, hi]
          cfg,     \* [lo, hi, hyst, cosMax, so, co]
          cosTilt, now
rfvars == <<smp, ready, valid, regular, tBad, tValid, lpf, stuck, cfg, cosTilt, now>>

Init == /\ smp = [t |-> 0, rng |-> 0, q |-> 0] /\ ready = FALSE /\ valid = FALSE /\ regular = FALSE
        /\ tBad = 0 /\ tValid = 0 /\ lpf = 0 /\ stuck = [is |-> FALSE, lo |-> 0, hi |-> 0]
        /\ cfg = [lo |-> 0, hi |-> 0, hyst |-> 0, cosMax |-> 7071, so |-> 0, co |-> -10000]
        /\ cosTilt = 0 /\ now = 0

SetSample(s) == smp' = s /\ ready' = TRUE /\ UNCHANGED <<valid, regular, tBad, tValid, lpf, stuck, cfg, cosTilt, now>>
SetReady(b) == ready' = b /\ UNCHANGED <<smp, valid, regular, tBad, tValid, lpf, stuck, cfg, cosTilt, now>>
SetValidity(b) == valid' = b /\ UNCHANGED <<smp, ready, regular, tBad, tValid, lpf, stuck, cfg, cosTilt, now>>
SetRange(r) == smp' = [smp EXCEPT !.rng = r] /\ UNCHANGED <<ready, valid, regular, tBad, tValid, lpf, stuck, cfg, cosTilt, now>>
SetCfg(c) == cfg' = c /\ UNCHANGED <<smp, ready, valid, regular, tBad, tValid, lpf, stuck, cosTilt, now>>

InRange == smp.rng >= cfg.lo /\ smp.rng <= cfg.hi
HystOK(t) == t - tBad > cfg.hyst
(* comparison slack of the fixed-point oracle; 0 in the design check *)
CONSTANT Slack
Lt(a, b, s) == IF s > 0 /\ Near(a, b, s) THEN BOOLEAN ELSE {a < b}

(* stuck detection, only consulted after a long time without valid readings *)
Spread == stuck.hi - stuck.lo
AfterStuck(varied) ==
  IF smp.t - tValid > StuckAfter
  THEN IF varied THEN [is |-> FALSE, lo |-> 0, hi |-> 0]
       ELSE [is |-> TRUE, hi |-> Max2(stuck.hi, smp.rng),
             lo |-> IF stuck.lo < MinSeed \/ smp.rng < stuck.lo THEN smp.rng ELSE stuck.lo]
  ELSE stuck

Check(t, ct) ==
  LET lp == Min2(lpf - RDiv(lpf, LpfDiv) + RDiv(t - smp.t, LpfDiv), LpfCap)
      stale == t - smp.t > Stale
  IN /\ now' = t /\ cosTilt' = ct /\ lpf' = lp
     /\ UNCHANGED <<smp, ready, cfg>>
     /\ \E cont \in Lt(lp, LpfMax, 400 * Slack), tiltOK \in Lt(cfg.cosMax, ct, 3 * Slack), varied \in Lt(StuckVar, Spread, 0) \cup (IF Slack > 0 /\ Spread = StuckVar THEN BOOLEAN ELSE {}) :
        IF stale \/ ~cont
        THEN valid' = FALSE /\ regular' = FALSE /\ UNCHANGED <<tBad, tValid, stuck>>
        ELSE /\ regular' = TRUE
             /\ IF ~ready THEN UNCHANGED <<valid, tBad, tValid, stuck>>
                ELSE IF smp.q = 0 THEN valid' = FALSE /\ tBad' = t /\ UNCHANGED <<tValid, stuck>>
                ELSE IF HystOK(t) /\ tiltOK /\ InRange
                THEN LET s == AfterStuck(varied) IN
                     /\ stuck' = s /\ valid' = ~s.is
                     /\ tValid' = IF s.is THEN tValid ELSE smp.t
                     /\ UNCHANGED tBad
                ELSE valid' = FALSE /\ UNCHANGED <<tBad, tValid, stuck>>

-----------------------------------------------------------------------------
(* the guarantee, stated on the step in which a reading becomes usable *)
BecomesValid == valid' /\ (ready \/ ~valid)
Trustworthy ==
  [][ (now' # now /\ BecomesValid) =>
        /\ ready /\ smp.q > 0 /\ now' - smp.t <= Stale /\ lpf' < LpfMax
        /\ now' - tBad > cfg.hyst /\ cosTilt' > cfg.cosMax
        /\ smp.rng >= cfg.lo /\ smp.rng <= cfg.hi
        /\ (smp.t - tValid > StuckAfter => stuck.hi - stuck.lo > StuckVar) ]_rfvars
Quiet == [][ (now' # now /\ now' - smp.t > Stale) => ~valid' /\ ~regular' ]_rfvars
ValidIsRegular == [][ now' # now /\ valid' => regular' ]_rfvars
=============================================================================
