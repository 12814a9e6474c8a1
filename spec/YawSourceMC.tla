---------------------------- MODULE YawSourceMC ----------------------------
(* All sources of yaw together: magnetometer, GNSS heading, vision; every history of data, alignment, faults and GNSS aiding; a second per step. *)
EXTENDS YawSource, TLC
G == INSTANCE MagModes
CONSTANT Limit
VARIABLES y, ev, modes, gps, yaw, tilt, age, fault, cfg, n
vars == <<y, ev, modes, gps, yaw, tilt, age, fault, cfg, n>>
Sec == 1000000
Sets == [gy : BOOLEAN, ev : BOOLEAN, type : {0, 1, 5}]
Init == y = Off /\ ev = FALSE /\ modes = {} /\ gps = FALSE /\ yaw = FALSE /\ tilt = FALSE /\ age = 0 /\ fault \in BOOLEAN /\ cfg \in Sets /\ n = 0
(* ages instead of times: last accepted heading, last sample *)
Aged(x) == [x EXCEPT !.last = IF @ < -12 * Sec THEN @ ELSE @ - Sec]
Step ==
  \E ready, heading, pass, vis, visLost, magR, g, stop \in BOOLEAN :
    /\ n' = IF n < Limit THEN n + 1 ELSE n
    /\ tilt' \in {tilt, TRUE} /\ UNCHANGED cfg
    /\ UNCHANGED fault
    /\ age' = IF ready THEN 0 ELSE IF age > 11 THEN age ELSE age + 1
    /\ LET y1 == Aged(y)
           m1 == G!Select(modes, [type |-> cfg.type, fault |-> fault, yaw |-> yaw, other |-> ev \/ y.on, ready |-> magR, aligned |-> FALSE, suitable |-> FALSE, gps |-> gps, decl |-> FALSE])
           y2 == Gnss(y1, [sel |-> cfg.gy, ready |-> ready, heading |-> heading, tilt |-> tilt', pass |-> pass, age |-> age' * Sec, stop |-> gps /\ stop], 0)
           gyStart == y2.on /\ ~y.on
           gStart == ~gps /\ g /\ ready /\ tilt' /\ (yaw \/ cfg.type < 5 \/ y2.on)
           evKeep == ev /\ ~gyStart /\ ~(gStart /\ cfg.type < 5) /\ ~visLost
           evStart == cfg.ev /\ vis /\ ~ev /\ tilt' /\ VisionMay(gStart \/ (gps /\ ~stop), y2.on)
       IN /\ y' = y2 /\ gps' = (gStart \/ (gps /\ ~stop))
          /\ ev' = (evKeep \/ evStart)
          /\ modes' = (IF gyStart \/ evStart THEN {} ELSE m1)
          /\ yaw' = (yaw \/ y2.on \/ evStart \/ (tilt' /\ cfg.type < 5))
Spec == Init /\ [][Step]_vars
Source == (IF y.on THEN 1 ELSE 0) + (IF ev THEN 1 ELSE 0) + (IF modes # {} THEN 1 ELSE 0)
One == Source <= 1
Selected == (y.on => cfg.gy /\ ~y.faulty) /\ (ev => cfg.ev)
Known == Source > 0 => yaw
Level == [][(y'.on /\ ~y.on) => tilt']_vars
Recent == y.on => (y.last >= 0 - YawWait \/ age > 0)
Heard == y.on => age <= 10
Latched == [][y.faulty => (y'.faulty /\ ~y'.on)]_vars
=============================================================================
