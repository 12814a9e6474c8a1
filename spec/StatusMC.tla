------------------------------ MODULE StatusMC ------------------------------
(* Every combination of aids, faults and terrain validity. *)
EXTENDS Status, TLC
Aids == {"tilt_align", "yaw_align", "gps", "opt_flow", "ev_pos", "ev_vel", "fuse_beta", "fuse_aspd", "baro_hgt", "gps_hgt"}
VARIABLES cs, faults, terrain, glitch
vars == <<cs, faults, terrain, glitch>>
Init == cs = {} /\ faults = {} /\ terrain = FALSE /\ glitch = FALSE
Toggle(S, x) == IF x \in S THEN S \ {x} ELSE S \cup {x}
Next == \/ \E x \in Aids : cs' = Toggle(cs, x) /\ UNCHANGED <<faults, terrain, glitch>>
        \/ \E x \in {"bad_acc_vertical", "bad_airspeed"} : faults' = Toggle(faults, x) /\ UNCHANGED <<cs, terrain, glitch>>
        \/ terrain' = ~terrain /\ UNCHANGED <<cs, faults, glitch>>
        \/ glitch' = ~glitch /\ UNCHANGED <<cs, faults, terrain>>
Spec == Init /\ [][Next]_vars
S == Solution(cs, faults, terrain, glitch)
Absolute == "pos_horiz_abs" \in S => "pos_horiz_rel" \in S
Relative == "pos_horiz_rel" \in S => "velocity_horiz" \in S
Constant == ("const_pos_mode" \in S) = ("velocity_horiz" \notin S)
Predicted == ("pred_pos_horiz_rel" \in S) = ("pos_horiz_rel" \in S) /\ ("pred_pos_horiz_abs" \in S) = ("pos_horiz_abs" \in S)
Faulty == faults # {} => S \cap {"attitude", "velocity_horiz", "velocity_vert", "pos_horiz_rel", "pos_horiz_abs", "pos_vert_abs"} = {}
Documented == Word(S, SolBits) \in 0 .. 4095
Tells == \A x \in DOMAIN SolBits : ((Word(S, SolBits) \div SolBits[x]) % 2 = 1) = (x \in S)
=============================================================================
