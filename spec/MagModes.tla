------------------------------ MODULE MagModes ------------------------------
(* Which magnetometer fusion is active.  Modes: heading, three axes, declination (with three axes only). *)
EXTENDS Integers, FiniteSets
Modes == {"mag_hdg", "mag_3D", "mag_dec"}
Auto == 0
Heading == 1
ThreeAxes == 2
Indoor == 4
Never == 5
(* three axes in the automatic mode: aligned in flight, and field or yaw observable within two seconds *)
Three(c) == c.type = ThreeAxes \/ (c.type \notin {Heading, Indoor} /\ c.aligned /\ c.suitable)
(* was: modes before; c: type (configured), fault, yaw (aligned), other (vision or GNSS yaw in use), ready (magnetometer sample at the horizon),
   aligned (in flight), suitable, gps (GNSS aiding), decl (declination always fused) *)
Select(was, c) ==
  IF c.type >= Never THEN was
  ELSE IF c.fault \/ ~c.yaw THEN {}
  ELSE IF c.other \/ ~c.ready THEN was
  ELSE IF Three(c) THEN {"mag_3D"} \cup (IF ~c.gps \/ c.decl THEN {"mag_dec"} ELSE {})
  ELSE {"mag_hdg"}
(* another source of yaw taking over ends magnetometer fusion *)
TakenOver(modes, taken) == IF taken THEN {} ELSE modes
(* the measured field is disturbed: strength (1e-4 G) against the expected one, as soon as the position on earth is known *)
Gate(known) == IF known THEN 2000 ELSE 4000
Expected(known, field) == IF known THEN field ELSE 4500
Within(s, e, w) == s >= e - w /\ s <= e + w
Disturbed(check, s, known, field) == check /\ ~Within(s, Expected(known, field), Gate(known))
(* not relied upon: disturbed, or indoor without any use of an absolute heading *)
Inhibited(c) == c.disturbed \/ (c.type = Indoor /\ ~c.nav)
=============================================================================
