-------------------------------- MODULE Truth --------------------------------
(* With sensors that agree with the motion the estimate follows it: what the
   aids in use make known stays within an envelope, smaller once it has settled.
   mm, mm/s, 1e-4 rad, 1e-5 rad/s, us. *)
EXTENDS Integers
Quantities == {"tilt", "yaw", "vel", "pos", "local", "height", "ground", "gyro", "acc", "wind", "still"}
Heading == {"mag_hdg", "mag_3D", "gps_yaw", "ev_yaw"}
(* what is known with the aids cs; north: the magnetic heading can be turned
   into a true one; place: there is an origin; terrain: the ground is seen *)
YawKnown(cs, north) == "yaw_align" \in cs /\ ((cs \cap {"mag_hdg", "mag_3D"} # {} /\ north) \/ cs \cap {"gps_yaw", "ev_yaw"} # {})
Moving == {"gps", "ev_vel", "ev_pos", "opt_flow"}
Known(q, cs, north, place, terrain) ==
  LET yaw == YawKnown(cs, north) vel == "tilt_align" \in cs /\ yaw /\ cs \cap Moving # {}
  IN CASE q = "tilt" -> vel
       [] q = "yaw" -> yaw
       [] q = "vel" -> vel
       [] q = "pos" -> vel /\ "gps" \in cs /\ place
       [] q = "local" -> vel /\ "ev_pos" \in cs /\ "gps" \notin cs
       [] q = "height" -> cs \cap {"baro_hgt", "gps_hgt", "rng_hgt", "ev_hgt"} # {}
       [] q = "ground" -> terrain /\ "in_air" \in cs /\ vel
       [] q \in {"gyro", "acc"} -> vel /\ "in_air" \in cs
       (* at rest at a known place what is left of the gyros is their bias: the rotation of the Earth is taken out *)
       [] q = "still" -> "vehicle_at_rest" \in cs /\ vel /\ place
       [] q = "wind" -> vel /\ "wind" \in cs /\ "fuse_aspd" \in cs /\ "fuse_beta" \notin cs
       [] OTHER -> FALSE
(* the envelope, by time since it is known *)
Settle(q) == IF q = "wind" THEN 25000000 ELSE IF q = "still" THEN 8000000 ELSE 10000000
First(q) == CASE q = "tilt" -> 200 [] q = "yaw" -> 500 [] q = "vel" -> 200 [] q = "pos" -> 300 [] q = "local" -> 60 [] q = "height" -> 150 [] q = "ground" -> 250 [] q = "gyro" -> 600 [] q = "acc" -> 60 [] q = "still" -> 600 [] OTHER -> 20000
Final(q) == CASE q = "tilt" -> 80 [] q = "yaw" -> 260 [] q = "vel" -> 130 [] q = "pos" -> 280 [] q = "local" -> 30 [] q = "height" -> 110 [] q = "ground" -> 120 [] q = "gyro" -> 320 [] q = "acc" -> 25 [] q = "still" -> 2 [] OTHER -> 1500
Within(q, e, known) == e <= (IF known < Settle(q) THEN First(q) ELSE Final(q))
(* an error is within three deviations of its reported variance *)
Covered(e, variance) == LET d == IF e < 0 THEN -e ELSE e v == IF variance > 100000000 THEN 100000000 ELSE variance IN (d <= 3) \/ (d < 30000 /\ ((d - 2) * (d - 2)) <= (9 * v))
=============================================================================
