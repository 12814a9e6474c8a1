----------------------------- MODULE GpsAidingMC -----------------------------
(* Every history of samples, quality, alignment and other aids, half a second per step. *)
EXTENDS GpsAiding, TLC
CONSTANTS Cap, Watched
VARIABLES on, sel, tilt, yaw, origin, other, fail, pass, age, pos, last
vars == <<on, sel, tilt, yaw, origin, other, fail, pass, age, pos, last>>
Half == 500000
Init == /\ on = FALSE /\ sel \in BOOLEAN /\ tilt = FALSE /\ yaw = FALSE /\ origin = FALSE /\ other = FALSE
        /\ fail = 0 /\ pass = Cap /\ age = 0 /\ pos = Cap /\ last = [why |-> "", started |-> FALSE, reset |-> FALSE]
Older(x) == IF x >= Cap THEN Cap ELSE x + 1
Step ==
  \E sample, good, accepted \in BOOLEAN :
    /\ (sel' = sel /\ (\/ UNCHANGED <<tilt, yaw, origin, other>>
                       \/ tilt' = TRUE /\ UNCHANGED <<yaw, origin, other>>
                       \/ yaw' = ~yaw /\ UNCHANGED <<tilt, origin, other>>
                       \/ origin' = TRUE /\ UNCHANGED <<tilt, yaw, other>>
                       \/ other' = ~other /\ UNCHANGED <<tilt, yaw, origin>>))
       \/ (sel' = ~sel /\ UNCHANGED <<tilt, yaw, origin, other>>)
    /\ fail' = IF sample /\ ~good THEN 0 ELSE Older(fail)
    /\ pass' = IF sample /\ good THEN 0 ELSE Older(pass)
    /\ age' = IF sample THEN 0 ELSE Older(age)
    /\ LET c == [on |-> on, sel |-> sel', ready |-> sample, age |-> age' * Half, other |-> other', tilt |-> tilt', yaw |-> yaw', origin |-> origin',
                 fail |-> 0 - fail' * Half, pass |-> 0 - pass' * Half]
           r == Aid(c, 0)
           late == r.on /\ sample /\ Failing(0 - pos * Half, 0 - pos * Half, 0 - Cap * Half, 0 - Cap * Half, 7000000, 0)
       IN /\ on' = r.on
          /\ last' = [why |-> r.why, started |-> r.started, reset |-> late]
          /\ pos' = IF ~Watched \/ (r.started \/ late) \/ (r.on /\ sample /\ accepted) THEN 0 ELSE Older(pos)
Spec == Init /\ [][Step]_vars
(* aiding starts only on aligned, healthy data *)
Entry == [][(on' /\ ~on) => (sel' /\ tilt' /\ yaw' /\ origin' /\ fail' > 10 /\ age' = 0)]_vars
(* it ends only for one of the reasons, never because measurements are refused *)
Exit == [][(on /\ ~on') => ((~sel' /\ age' = 0) \/ age' > 20 \/ (other' /\ (age' > 2 \/ (pass' > 10 /\ age' = 0))))]_vars
(* and does end: silence is not waited out for longer *)
Ends == on => (age <= 20 /\ ~(other /\ age > 2))
Told == [][(on /\ ~on') => (~sel' \/ last'.why \in Reasons)]_vars
(* measurements refused for long lead to a reset, not to the end of aiding *)
Bounded == (on /\ age = 0) => pos <= 15
=============================================================================
