------------------------------ MODULE AtRestMC ------------------------------
(* All histories of movement and take-off over a bounded time, with a history variable that knows when the vehicle last moved or flew. *)
EXTENDS AtRest
CONSTANT MaxT
VARIABLES t, quiet
vars == <<air, last, rest, t, quiet>>
Init == air = FALSE /\ last = 0 /\ rest = FALSE /\ t = 0 /\ quiet = 0
Next == \/ /\ t < MaxT
           /\ \E d \in 1..2, m \in BOOLEAN : t' = t + d /\ Sample(t + d, m) /\ quiet' = IF m \/ air THEN 0 ELSE quiet + d
        \/ \E b \in BOOLEAN : SetAir(b) /\ UNCHANGED <<t, quiet>>
        \/ t >= MaxT /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
OnlyWhenStill == rest => quiet > Hold
AlwaysWhenStill == [][t' # t => (rest' = (quiet' > Hold /\ ~air))]_vars
ClearedAtOnce == [][(t' # t /\ (air \/ quiet' = 0)) => ~rest']_vars
=============================================================================
