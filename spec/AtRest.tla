------------------------------- MODULE AtRest -------------------------------
(* When a vehicle counts as standing still: on the ground, and no movement seen for more than Hold. *)
EXTENDS Integers
CONSTANT Hold
VARIABLES air, last, rest
rvars == <<air, last, rest>>
Still(t, from) == t - from > Hold
(* one IMU sample; moved: rotation rate or filtered vibration beyond its limit *)
Sample(t, moved) ==
  /\ UNCHANGED air
  /\ last' = IF air \/ moved THEN t ELSE last
  /\ rest' = (~air /\ Still(t, last'))
SetAir(b) == air' = b /\ UNCHANGED <<last, rest>>
=============================================================================
