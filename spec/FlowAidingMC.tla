---------------------------- MODULE FlowAidingMC ----------------------------
(* Every history of flow samples, range readings, take-off and other aiding, a second per step. *)
EXTENDS FlowAiding, TLC
CONSTANTS Cap, Sels
VARIABLES on, sel, tilt, yaw, air, other, dead, bad, age, hagl, of, last
vars == <<on, sel, tilt, yaw, air, other, dead, bad, age, hagl, of, last>>
Sec == 1000000
Init == /\ on = FALSE /\ sel \in Sels /\ tilt = FALSE /\ yaw = FALSE /\ air = FALSE /\ other = FALSE /\ dead = FALSE /\ bad = FALSE
        /\ age = 0 /\ hagl = 0 /\ of = Cap /\ last = [start |-> FALSE, tries |-> FALSE, resets |-> 0, ready |-> FALSE, usable |-> FALSE, motion |-> TRUE, needed |-> FALSE, other |-> FALSE]
Older(x) == IF x >= Cap THEN Cap ELSE x + 1
Step ==
  \E ready, good, range \in BOOLEAN : \E pass \in (IF ready THEN BOOLEAN ELSE {TRUE}) : \E motion \in (IF air \/ ~ready THEN {TRUE} ELSE BOOLEAN) :
    /\ UNCHANGED sel
    /\ \/ UNCHANGED <<tilt, yaw, air, other, bad>>
       \/ tilt' = TRUE /\ UNCHANGED <<yaw, air, other, bad>>
       \/ yaw' = TRUE /\ UNCHANGED <<tilt, air, other, bad>>
       \/ air' = ~air /\ UNCHANGED <<tilt, yaw, other, bad>>
       \/ other' = ~other /\ UNCHANGED <<tilt, yaw, air, bad>>
       \/ bad' = (~bad /\ other) /\ UNCHANGED <<tilt, yaw, air, other>>
    /\ age' = IF ready THEN 0 ELSE Older(age)
    /\ LET c == [on |-> on, sel |-> sel, tilt |-> tilt', yaw |-> yaw', air |-> air', ready |-> ready, usable |-> FlowUsable(good, TRUE, air'), silent |-> age' > 10, motion |-> motion,
                 terrain |-> hagl <= 5, hagl |-> hagl < 10, dead |-> dead, other |-> other', bad |-> bad', of |-> 0 - of * Sec]
           r == Flow(c, 5 * Sec, 0, pass)
       IN /\ on' = r.on
          /\ of' = IF r.of = 0 THEN 0 ELSE Older(of)
          /\ dead' = (~other' /\ ~(r.on /\ of' <= 2))
          /\ last' = [start |-> r.start, tries |-> r.tries, resets |-> r.resets, ready |-> ready, usable |-> FlowUsable(good, TRUE, air'), motion |-> motion, needed |-> air' /\ (dead \/ (on /\ ~other') \/ bad'), other |-> other']
    /\ hagl' = IF ~air' \/ range THEN 0 ELSE Older(hagl)
Spec == Init /\ [][Step]_vars
Selected == on => sel /\ tilt /\ yaw
(* bad samples are not used in the air, and nothing is used without a height above ground *)
Clean == last.tries => (last.ready /\ last.usable /\ on)
Height == [][last'.tries => hagl < 10]_vars
(* starting alone sets velocity and position; relying on it for long without success does so again *)
Placed == last.start => (last.resets >= 1 \/ last.other)
Again == [][(on' /\ last'.ready /\ last'.usable /\ ~last'.other /\ of' > 5) => last'.resets >= 1]_vars
(* flow is left without a height above ground unless it is needed, and after ten seconds of silence *)
Left == [][(on' /\ last'.ready /\ last'.usable /\ air' /\ hagl > 5) => last'.needed]_vars
Silent == on => age <= 10
Kept == [][(on /\ ~on') => (age' > 10 \/ (last'.ready /\ last'.usable /\ (~sel \/ ~tilt' \/ (~air' /\ ~last'.motion) \/ (air' /\ hagl > 5 /\ ~last'.needed))))]_vars
=============================================================================
