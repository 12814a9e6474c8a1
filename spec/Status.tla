------------------------------- MODULE Status -------------------------------
(* The solution status word and the innovation status, as functions of what the filter uses. *)
EXTENDS Integers, FiniteSets
(* names and bits of the solution status *)
SolBits == [attitude |-> 1, velocity_horiz |-> 2, velocity_vert |-> 4, pos_horiz_rel |-> 8, pos_horiz_abs |-> 16, pos_vert_abs |-> 32, pos_vert_agl |-> 64,
            const_pos_mode |-> 128, pred_pos_horiz_rel |-> 256, pred_pos_horiz_abs |-> 512, gps_glitch |-> 1024, accel_error |-> 2048]
(* cs: control flags, faults: fault flags, terrain: terrain valid, glitch: GNSS refused while the magnetometer agrees *)
Solution(cs, faults, terrain, glitch) ==
  LET fine == faults = {}
      air == {"fuse_beta", "fuse_aspd"} \subseteq cs
      h == fine /\ (cs \cap {"gps", "opt_flow", "ev_pos", "ev_vel"} # {} \/ air)
      v == fine /\ cs \cap {"baro_hgt", "gps_hgt", "rng_hgt", "ev_hgt"} # {}
      rel == fine /\ cs \cap {"gps", "ev_pos", "opt_flow"} # {}
      abs == fine /\ cs \cap {"gps", "ev_pos"} # {}
      If(c, s) == IF c THEN s ELSE {}
  IN If(fine /\ {"tilt_align", "yaw_align"} \subseteq cs, {"attitude"}) \cup If(h, {"velocity_horiz"}) \cup If(~h, {"const_pos_mode"})
     \cup If(v, {"velocity_vert", "pos_vert_abs"}) \cup If(rel, {"pos_horiz_rel", "pred_pos_horiz_rel"}) \cup If(abs, {"pos_horiz_abs", "pred_pos_horiz_abs"})
     \cup If(terrain, {"pos_vert_agl"}) \cup If(glitch, {"gps_glitch"}) \cup If("bad_acc_vertical" \in faults, {"accel_error"})
RECURSIVE Word(_, _)
Word(S, bits) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN bits[x] + Word(S \ {x}, bits)
FailBits == [reject_hor_vel |-> 1, reject_ver_vel |-> 2, reject_hor_pos |-> 4, reject_ver_pos |-> 8, reject_mag_x |-> 16, reject_mag_y |-> 32, reject_mag_z |-> 64, reject_yaw |-> 128,
             reject_airspeed |-> 256, reject_sideslip |-> 512, reject_hagl |-> 1024, reject_optflow_X |-> 2048, reject_optflow_Y |-> 4096]
=============================================================================
