-------------------------------- MODULE Why --------------------------------
(* A condition that says its name when it does not hold (shown when a trace is rejected). *)
EXTENDS TLC
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"not:", name>>) /\ FALSE
=============================================================================
