------------------------------- MODULE AlignMC -------------------------------
(* All orders of arrival, disturbances and restarts of a short start-up. *)
EXTENDS Align, TLC
CONSTANTS Need, Depth, Types
Acc == {<<0, 0, -9807>>, <<3000, 0, -9000>>, <<0, 0, -16000>>}
Gyr == {<<0, 0, 0>>, <<0, 6000, 0>>}
VARIABLES A, type, run, tilt, yaw, hist, var
vars == <<A, type, run, tilt, yaw, hist, var>>
Init == A = Fresh /\ type \in Types /\ run = FALSE /\ tilt = FALSE /\ yaw = FALSE /\ hist = <<>> /\ var = 40000
Before(acc, gyr, m, b) ==
  /\ ~run /\ Len(hist) < Depth
  /\ LET B == Gather(A, acc, gyr, m, b, 1000 + 100 * Len(hist)) go == MayStart(B, Need, type, 0)
     IN A' = B /\ run' = go /\ yaw' = (go /\ UsesMag(type)) /\ hist' = Append(hist, [m |-> m, b |-> b, ok |-> Still(B, 0), raw |-> acc = <<0, 0, -9807>> /\ gyr = <<0, 0, 0>>])
  /\ UNCHANGED <<type, tilt, var>>
After(nv) ==
  /\ run /\ var' = nv
  /\ tilt' = (tilt \/ TiltKnown(var))
  /\ yaw' = IF ~tilt /\ tilt' THEN UsesMag(type) ELSE yaw
  /\ UNCHANGED <<A, type, run, hist>>
Restart == run /\ A' = Fresh /\ run' = FALSE /\ tilt' = FALSE /\ yaw' = FALSE /\ hist' = <<>> /\ var' = 40000 /\ UNCHANGED type
Next == (\E a \in Acc, g \in Gyr, m, b \in BOOLEAN : Before(a, g, m, b)) \/ (\E v \in {40000, 20000} : After(v)) \/ Restart
Spec == Init /\ [][Next]_vars
NB == LET F[k \in 0..Len(hist)] == IF k = 0 THEN 0 ELSE F[k - 1] + (IF hist[k].b THEN 1 ELSE 0) IN F[Len(hist)]
NM == LET F[k \in 0..Len(hist)] == IF k = 0 THEN 0 ELSE F[k - 1] + (IF hist[k].m THEN 1 ELSE 0) IN F[Len(hist)]
Enough == run => NB >= Need /\ (UsesMag(type) => NM >= Need) /\ hist[Len(hist)].ok
Prompt == ~run => ~(NB >= Need /\ (UsesMag(type) => NM >= Need) /\ (Len(hist) > 0 /\ hist[Len(hist)].ok))
(* a vehicle that was still throughout starts as soon as the data are there *)
StillStarts == (\A k \in 1..Len(hist) : hist[k].raw) => (run <=> (NB >= Need /\ (UsesMag(type) => NM >= Need)))
Order == (tilt => run) /\ (yaw => run) /\ (yaw => UsesMag(type))
Bounded == LET B == {x \in 1..Len(hist) : hist[x].b} IN B # {} => (A.h >= 1000 /\ A.h <= 1000 + 100 * Len(hist))
=============================================================================
