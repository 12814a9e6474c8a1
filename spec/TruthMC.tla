------------------------------- MODULE TruthMC -------------------------------
(* A filter whose aids come and go: tilt errors make velocity errors, velocity
   errors make position errors, and each aid in use takes part of the error
   away.  What Known says is known must stay within the envelopes of Truth. *)
EXTENDS Truth, FiniteSets
CONSTANTS Steps, Push
(* a step is a second; aids change every fourth *)
H == 1000000
VARIABLES cs, tilt, vel, pos, yaw, since, n
vars == <<cs, tilt, vel, pos, yaw, since, n>>
Q == {"tilt", "vel", "pos", "yaw"}
AbsI(x) == IF x < 0 THEN -x ELSE x
Cut(x, m) == IF x > m THEN m ELSE IF x < -m THEN -m ELSE x
Half(x) == IF x < 0 THEN -((-x) \div 2) ELSE x \div 2
Part(x, k) == IF x < 0 THEN -((-x) \div k) ELSE x \div k
Sets == {{"tilt_align"}, {"tilt_align", "yaw_align", "mag_hdg"}, {"tilt_align", "yaw_align", "mag_hdg", "gps"}, {"tilt_align", "yaw_align", "ev_yaw", "ev_vel"}, {"tilt_align", "yaw_align", "gps_yaw", "gps"}}
On(q, S) == Known(q, S, TRUE, TRUE, FALSE)
Init == cs = {"tilt_align"} /\ tilt \in {-100, 100} /\ vel = 0 /\ pos = 0 /\ yaw = 3000 /\ since = [q \in Q |-> -1] /\ n = 0
Err(q) == AbsI(CASE q = "tilt" -> tilt [] q = "vel" -> vel [] q = "pos" -> pos [] OTHER -> yaw)
Next ==
  /\ n < Steps
  /\ \E S \in (IF n % 4 = 0 THEN Sets ELSE {cs}), d \in (IF n % 2 = 0 THEN {-Push, Push} ELSE {0}) :
     LET starts(q) == On(q, S) /\ ~On(q, cs)
         (* motion of the errors, then the measurements; a start resets *)
         v1 == vel + Half(tilt) + d
     IN /\ cs' = S
        /\ vel' = (IF starts("vel") THEN d ELSE IF On("vel", S) THEN Half(v1) ELSE Cut(v1, 400))
        /\ tilt' = (IF On("vel", S) /\ ~starts("vel") THEN tilt - Part(v1, 3) ELSE Cut(tilt + Part(d, 4), 150))
        /\ pos' = (IF starts("pos") THEN d ELSE IF On("pos", S) THEN Half(pos + Half(vel)) ELSE Cut(pos + Half(vel), 800))
        /\ yaw' = (IF starts("yaw") THEN 2 * d ELSE IF On("yaw", S) THEN Half(yaw) + d ELSE 3000)
        /\ since' = [q \in Q |-> IF ~On(q, S) THEN -1 ELSE IF since[q] < 0 THEN 0 ELSE IF since[q] < 25 THEN since[q] + 1 ELSE 25]
  /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Follows == \A q \in Q : since[q] >= 0 => Within(q, Err(q), since[q] * H)
(* what depends on something else is known only with it *)
Nested == /\ since["pos"] >= 0 => since["vel"] >= since["pos"]
          /\ since["vel"] >= 0 => since["yaw"] >= since["vel"] /\ since["tilt"] = since["vel"]
=============================================================================
