------------------------------ MODULE LimitsMC ------------------------------
(* Steps of prediction, fusions, resets and mode changes on small numbers. *)
EXTENDS Limits, TLC
CONSTANTS Max, Track
VARIABLES touched, V, mag, wind, saved, pm, pw, fused, x
vars == <<touched, V, mag, wind, saved, pm, pw, fused, x>>
Lo == [b \in Blocks |-> IF b \in {"v", "p", "ab"} THEN 1 ELSE 0]
Hi == [b \in Blocks |-> 3]
Zero == [b \in Blocks |-> 0]
Init == touched = FALSE /\ V = [b \in Blocks |-> IF b \in MagBlocks \cup {"w"} THEN 0 ELSE 1] /\ mag = FALSE /\ wind = FALSE /\ saved = 0 /\ pm = FALSE /\ pw = FALSE /\ x = 0 /\ fused = FALSE
Grow(W) == {[b \in Blocks |-> W[b] + (IF b = c THEN d ELSE 0)] : c \in Track, d \in {0, 2}}
Shrink(W) == {[W EXCEPT ![c] = IF @ > d THEN @ - d ELSE @] : c \in Track, d \in {0, 1}}
Reset(W) == {W} \cup {[W EXCEPT ![c] = r] : c \in Track \ {"w"}, r \in {1, Max}}
(* mode changes: turning 3-axis fusion on restores saved variances, turning it off leaves clearing to the next prediction *)
Next == /\ pm' = mag /\ pw' = wind
        /\ \E G \in Grow(V) : \E F \in Shrink(Constrained(G, mag, wind, Lo, Hi)) : \E R \in Reset(F) : \E m \in BOOLEAN, w \in BOOLEAN :
             /\ touched' = (R # F \/ (m /\ ~mag))
             /\ mag' = m /\ wind' = w
             /\ saved' = IF mag /\ ~m THEN R["mb"] ELSE saved
             /\ V' = [R EXCEPT !["mb"] = IF m /\ ~mag THEN saved' ELSE @, !["w"] = IF w /\ ~wind THEN 2 ELSE @]
        /\ \E c \in {0, 1, 2} : \E f \in BOOLEAN : LET y == Clamp(x + c, 0, 2) IN fused' = f /\ x' = IF f THEN y + 1 ELSE y
Spec == Init /\ [][Next]_vars
NonNeg == \A b \in Blocks : V[b] >= 0
AllSettled == \A b \in Blocks : Settled(touched, V[b], Hi[b])
Unused == UnusedClear(pm, mag, touched, V["mb"] = 0) /\ UnusedClear(pw, wind, FALSE, V["w"] = 0)
Limited == StateLimited(fused, x, 2)
=============================================================================
