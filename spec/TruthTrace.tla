------------------------------ MODULE TruthTrace ------------------------------
(* Recorded flights with noiseless sensors that agree with the motion. *)
EXTENDS Truth, Sequences, FiniteSets, Why, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, prev, T
vars == <<l, g, prev, T>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
(* since: instant from which each quantity is known; mode: last change of the aids; zoff: height error when first known *)
T0 == [since |-> [q \in Quantities |-> -1], mode |-> 0, up |-> 0, zoff |-> 0, bad |-> 0]
Init == l = 1 /\ g = None /\ prev = None /\ T = T0
New == Is("new") /\ g' = Ev /\ prev' = None /\ T' = T0
Par == Is("par") /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = Ev.v] ELSE g) /\ UNCHANGED <<prev, T>>
Other == (Is("call") \/ Is("p")) /\ UNCHANGED <<g, prev, T>>
First1 == /\ Is("u") /\ prev = None /\ prev' = Ev /\ T' = T0 /\ UNCHANGED g
Aids == {"gps", "opt_flow", "ev_pos", "ev_vel", "ev_yaw", "mag_hdg", "mag_3D", "gps_yaw", "baro_hgt", "gps_hgt", "rng_hgt", "ev_hgt", "in_air", "yaw_align", "tilt_align", "fuse_aspd", "fuse_beta", "wind", "gnd_effect", "vehicle_at_rest", "mag_aligned_in_flight", "fixed_wing"}
Expected == {"gps_checks_passed", "starting_gps_fusion", "starting_vision_pos_fusion", "starting_vision_vel_fusion", "starting_vision_yaw_fusion", "starting_optical_flow_fusion"}
Step ==
  /\ Is("u") /\ prev # None
  /\ LET r == Ev p == prev t == r.t
         cs == ToSet(r.cs) was == ToSet(p.cs) we == ToSet(r.we) ie == ToSet(r.ie) nf == ToSet(r.nf) fs == ToSet(r.fs)
         north == r.ogn \/ g.fusion_mode % 2 = 0
         since == [q \in Quantities |-> IF ~Known(q, cs, north, r.ogn, r.tv) THEN -1 ELSE IF T.since[q] < 0 THEN t ELSE T.since[q]]
         changed == (cs \cap Aids) # (was \cap Aids)
         mode == IF changed \/ ie # {} THEN t ELSE T.mode
         quiet == t - mode > 3000000
         Err(q) == CASE q = "tilt" -> r.te
                     [] q = "yaw" -> AbsI(r.ye)
                     [] q = "vel" -> r.ve
                     [] q = "pos" -> MaxI(AbsI(r.gl[1] - r.tp3[1]), AbsI(r.gl[2] - r.tp3[2]))
                     [] q = "local" -> MaxI(AbsI(r.vp[4] - r.tp3[1]), AbsI(r.vp[5] - r.tp3[2]))
                     [] q = "ground" -> AbsI((r.tp - r.vp[6]) - (r.tt - r.tp3[3]))
                     [] q = "still" -> IF r.tb # <<0, 0, 0>> THEN 0 ELSE MaxI(MaxI(AbsI(r.gb[1]), AbsI(r.gb[2])), AbsI(r.gb[3]))
                     [] q = "gyro" -> MaxI(MaxI(AbsI(r.gb[1] - r.tb[1]), AbsI(r.gb[2] - r.tb[2])), AbsI(r.gb[3] - r.tb[3]))
                     [] q = "acc" -> AbsI(r.ab[3] - r.tab[3])
                     [] q = "wind" -> MaxI(AbsI(r.w[1] - r.tw[1]), AbsI(r.w[2] - r.tw[2]))
                     [] OTHER -> AbsI(r.vp[6] - r.tp3[3] - T.zoff)
         zoff == IF since["height"] = t \/ changed THEN r.vp[6] - r.tp3[3] ELSE T.zoff
     IN /\ \A q \in Quantities : (since[q] >= 0 /\ since[q] < t /\ (q = "height" => ~changed)) =>
             Chk(<<q, Err(q), t - since[q]>>, Within(q, Err(q), t - since[q]))
        (* the reported uncertainty of the learned biases covers their error *)
        /\ ("tilt_align" \in cs => \A k \in 1..3 :
             /\ Chk(<<"gyro bias surer than right", k, r.gb[k] - r.tb[k], r.gbv[k]>>, Covered(r.gb[k] - r.tb[k], r.gbv[k]))
             /\ (k = 3 /\ "in_air" \in cs) => Chk(<<"accel bias surer than right", r.ab[k] - r.tab[k], r.abvr[k]>>, Covered(r.ab[k] - r.tab[k], r.abvr[k])))
        (* rounding may cost a variance now and then; it is repaired *)
        /\ Chk(<<"faults", fs>>, T.bad <= 100)
        /\ quiet => /\ Chk(<<"refused", nf>>, nf = {})
                    /\ Chk(<<"reset", p.rc, r.rc>>, p.rc = r.rc)
        /\ Chk(<<"warnings", we>>, we = {})
        /\ T' = [T EXCEPT !.since = since, !.mode = mode, !.zoff = zoff, !.bad = IF fs = {} THEN @ ELSE @ + 1]
  /\ prev' = Ev /\ UNCHANGED g
Next == New \/ Par \/ First1 \/ Step \/ Other
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
