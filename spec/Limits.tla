------------------------------- MODULE Limits -------------------------------
(* What every completed filter step leaves behind: an admissible covariance and an admissible state.                                  *)
(* Covariance blocks in the order quaternion, velocity, position, gyro bias, accel bias, earth field, body field, wind.               *)
EXTENDS Integers, Sequences
Blocks == {"q", "v", "p", "gb", "ab", "mi", "mb", "w"}
MagBlocks == {"mi", "mb"}
(* prediction limits every block to its range and clears the blocks of unused states; fusions only shrink variances; resets set them *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Constrained(V, mag3d, wind, Lo, Hi) ==
  [b \in Blocks |-> IF (b \in MagBlocks /\ ~mag3d) \/ (b = "w" /\ ~wind) THEN 0 ELSE Clamp(V[b], Lo[b], Hi[b])]
(* a limit may be exceeded only in a step that reset the value *)
Settled(touched, now, lim) == now <= lim \/ touched
(* unused states have no covariance, at the latest one step after their use ended (or a reset touched them) *)
UnusedClear(usedbefore, usednow, touched, zeronow) == (~usedbefore /\ ~usednow /\ ~touched) => zeronow
(* a state beyond its limit is one that a fusion of this very step moved *)
StateLimited(fused, now, lim) == now <= lim \/ fused
=============================================================================
