----------------------------- MODULE EvAidingMC -----------------------------
(* Every history of vision messages, delayed to the horizon, alignment and other aiding; a tenth of a second per step. *)
EXTENDS EvAiding, TLC
CONSTANTS Wait, Delay
VARIABLES on, sel, tilt, yaw, gps, age, line, last
vars == <<on, sel, tilt, yaw, gps, age, line, last>>
Tenth == 100000
(* line: which of the last Delay steps brought a message *)
Init == on = {} /\ sel \in SUBSET Modes /\ tilt = FALSE /\ yaw = FALSE /\ gps = FALSE /\ age = Wait + 2 /\ line = [k \in 1..Delay |-> FALSE] /\ last = [start |-> {}, stopped |-> FALSE]
Step ==
  \E m, y \in BOOLEAN :
    /\ tilt' \in {tilt, TRUE} /\ gps' \in {gps, tilt' /\ yaw /\ ~gps, FALSE}
    /\ yaw' = (yaw \/ (y /\ tilt')) /\ UNCHANGED sel
    /\ age' = IF m THEN 0 ELSE IF age > Wait + 1 THEN age ELSE age + 1
    /\ line' = [k \in 1..Delay |-> IF k = 1 THEN m ELSE line[k - 1]]
    /\ LET was == on \ (IF gps' /\ ~gps THEN {"ev_yaw"} ELSE {})
           r == Vision(was, [sel |-> sel, ready |-> line[Delay], last |-> 0 - age' * Tenth, gps |-> gps', tilt |-> tilt', yaw |-> yaw'], Wait * Tenth, 0)
       IN on' = r.on /\ last' = [start |-> r.start, stopped |-> r.stopped]
Spec == Init /\ [][Step]_vars
Selected == on \subseteq sel
Aligned == on # {} => tilt
Frame == on \cap {"ev_pos", "ev_vel"} # {} => yaw
YawAlone == [][("ev_yaw" \in on' \ on) => ~gps']_vars
Alive == [][(on' \ on) # {} => (age' < 4 /\ line[Delay])]_vars
(* silence ends vision, and nothing else does (GNSS takes the yaw over) *)
Silent == on # {} => (age <= Wait \/ \E k \in 1..Delay : line[k])
Ends == [][(on \ on') # {} => (last'.stopped \/ (on \ on' = {"ev_yaw"} /\ gps' /\ ~gps))]_vars
All == last.stopped => on = {}
=============================================================================
