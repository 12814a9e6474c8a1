---------------------------- MODULE GpsAidingTrace ----------------------------
(* Recorded flights: start, end and resets of GNSS aiding. *)
EXTENDS EkfIntake, GpsAiding, Why, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, I, prev, T
vars == <<l, g, I, prev, T>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
Zero == -1000000                 \* the filter's clock at zero
(* fail, pass: quality; stamp: last sample at the horizon; m: recent messages; vel, pos: earliest and latest instant of the last accepted measurement; oth: of flow or odometry *)
T0 == [fail |-> Zero, pass |-> Zero, stamp |-> Zero, m |-> <<>>, vel |-> <<0, 0>>, pos |-> <<0, 0>>, oth |-> <<0, 0>>, obs |-> <<0, 0>>]
Init == l = 1 /\ g = None /\ I = None /\ prev = None /\ T = T0
New == Is("new") /\ g' = Ev /\ I' = InNew(Ev) /\ prev' = None /\ T' = T0
Raw == {"fusion_mode", "vdist_sensor_type", "gps_check_mask", "reset_timeout_max"}
Par == Is("par") /\ I' = InPar(I, Ev.n, Ev.v) /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n \in Raw THEN Ev.v \div 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<prev, T>>
Call == Is("call") /\ UNCHANGED <<g, I, prev, T>>
Refused(chk, mask) == chk % 2 = 1 \/ \E k \in 0..8 : (chk \div (2 ^ (k + 1))) % 2 = 1 /\ (mask \div (2 ^ k)) % 2 = 1
Last4(q) == IF Len(q) > 12 THEN SubSeq(q, Len(q) - 11, Len(q)) ELSE q
RECURSIVE Watch(_, _, _, _, _)
Watch(W, d, k, last, p) ==
  IF k > Len(d) THEN W
  ELSE LET m == d[k] IN
       Watch(IF m[1] = "gps" /\ m[2] = last
             THEN LET bad == Refused(m[5], p.gps_check_mask) first == W.fail = Zero
                  IN [W EXCEPT !.fail = IF first \/ bad THEN m[6].ti ELSE @, !.pass = IF bad THEN @ ELSE m[6].ti, !.m = Last4(Append(@, m))]
             ELSE W, d, k + 1, last, p)
Take(st, r) == Watch(T, r.d, 1, st.I.S.gps.last, g)
Pre == Is("p") /\ prev = None /\ LET st == InStep(I, Ev.t, Ev.d, Unstarted) IN I' = st.I /\ T' = Take(st, Ev) /\ UNCHANGED <<g, prev>>
First == /\ Is("u") /\ prev = None
         /\ LET st == InStep(I, Ev.t, Ev.d, SNames \ {"flow"}) IN
            /\ I' = st.I
            /\ Chk("no aiding at the start", "gps" \notin ToSet(Ev.cs))
            /\ T' = [Take(st, Ev) EXCEPT !.vel = <<Ev.t, Ev.t>>, !.pos = <<Ev.t, Ev.t>>, !.oth = <<Ev.t, Ev.t>>, !.stamp = IF st.ready["gps"] THEN st.stamp["gps"] ELSE @]
         /\ prev' = Ev /\ UNCHANGED g
Moved(p, r, n, x) == p.in[n][x] # r.in[n][x]
(* the angle between the velocity estimate and the last GNSS velocity may be taken for a wrong yaw *)
YawSuspect(v, o) ==
  LET n(a) == (a[1] \div 10) * (a[1] \div 10) + (a[2] \div 10) * (a[2] \div 10)
      dot == (v[1] \div 10) * (o[1] \div 10) + (v[2] \div 10) * (o[2] \div 10)
  IN n(v) > 6400 /\ n(o) > 6400 /\ (dot < 0 \/ (dot \div 1000) * (dot \div 1000) < ((((n(v) \div 1000) * (n(o) \div 1000)) \div 100) * 92) + 100)
Msg(W, stamp, d) == {k \in 1..Len(W.m) : W.m[k][2] - d - 5000 = stamp}
Step ==
  /\ Is("u") /\ prev # None
  /\ \E st \in {InStep(I, Ev.t, Ev.d, SNames \ {"flow"})} : \E W \in {Take(st, Ev)} :
     LET r == Ev p == prev t == r.t
         cs == ToSet(r.cs) was == ToSet(p.cs) we == ToSet(r.we) ie == ToSet(r.ie) nf == ToSet(r.nf)
         ready == st.ready["gps"]
         stamp == IF ready THEN st.stamp["gps"] ELSE T.stamp
         other == "opt_flow" \in cs \/ was \cap {"ev_pos", "ev_vel"} # {} \/ {"fuse_aspd", "fuse_beta"} \subseteq was
         C(y) == [on |-> "gps" \in was, sel |-> Bit(g.fusion_mode, 1), ready |-> ready, age |-> st.h - stamp, other |-> other, tilt |-> "tilt_align" \in cs, yaw |-> y,
                  origin |-> r.ogn, fail |-> W.fail, pass |-> W.pass]
         yaws == IF "yaw_align" \notin cs THEN {FALSE} \cup (IF "yaw_align" \in was THEN {TRUE} ELSE {})
                 ELSE {TRUE} \cup (IF "yaw_align" \notin was \/ "ev_yaw" \in was \cup cs THEN {FALSE} ELSE {})
         Is1(a) == /\ ("gps" \in cs) = a.on
                   /\ (we \cap Reasons) = (IF a.why = "" THEN {} ELSE {a.why})
                   /\ ("starting_gps_fusion" \in ie) = a.started
         (* the sample used *)
         ks == Msg(W, stamp, DelayOf(g, "gps"))
         s == W.m[CHOOSE k \in ks : TRUE][6]
         quiet == ~Moved(p, r, "ev", "x") /\ ~Moved(p, r, "aux", "x") /\ ~Moved(p, r, "flow", "x")
         started == "starting_gps_fusion" \in ie
         told == "gps_fusion_timout" \in we
         gsf == (we \cup ie) \cap {"emergency_yaw_reset_mag_stopped", "yaw_aligned_to_imu_gps"} # {}
         wait == g.reset_timeout_max
         on == "gps" \in cs
         may == Failing(T.pos[1], T.vel[1], T.oth[1], T.oth[1], wait, t)
         must == Failing(T.pos[2], T.vel[2], T.oth[2], T.oth[2], wait, t)
         tryG == Moved(p, r, "gps", "x") /\ on /\ ready
         alone == quiet
         Upd(x, flag) == IF told THEN <<t, IF tryG \/ ~alone THEN t ELSE t>>
                         ELSE IF tryG /\ alone THEN (IF flag \notin nf THEN <<t, t>> ELSE x)
                         ELSE IF tryG \/ ~alone \/ ~on \/ gsf THEN <<x[1], t>> ELSE x
     IN /\ I' = st.I
        /\ Chk(<<"aiding", C(TRUE), yaws, was, cs, we \cap Reasons, t>>, \E y \in yaws : Is1(Aid(C(y), t)))
        /\ started => /\ Chk("position reset to GNSS", "reset_pos_to_gps" \in ie /\ (r.rc[2] - p.rc[2] + 256) % 256 >= 1)
                      /\ Chk("velocity reset to GNSS", "opt_flow" \in cs \/ ("reset_vel_to_gps" \in ie /\ (r.rc[1] - p.rc[1] + 256) % 256 >= 1))
                      /\ (on /\ ks # {} /\ quiet) => /\ Chk(<<"at the GNSS position", s.px, s.py, r.vp>>, AbsI(r.vp[4] - s.px) <= 100 /\ AbsI(r.vp[5] - s.py) <= 100)
                                                 /\ Chk(<<"with the GNSS velocity", s.vn, s.ve, r.vp>>, "opt_flow" \in cs \/ (AbsI(r.vp[1] - s.vn) <= 50 /\ AbsI(r.vp[2] - s.ve) <= 50))
        /\ told => /\ Chk(<<"reset without need", T, t>>, may /\ on /\ ready)
                   /\ Chk("reset to GNSS", {"reset_pos_to_gps", "reset_vel_to_gps"} \subseteq ie)
                   /\ (ks # {} /\ quiet) => Chk(<<"at the GNSS position again", s.px, s.py, r.vp>>, AbsI(r.vp[4] - s.px) <= 100 /\ AbsI(r.vp[5] - s.py) <= 100)
        /\ (must /\ on /\ ready /\ ~("in_air" \in cs /\ YawSuspect(p.vp, T.obs))) => Chk(<<"needed reset", T, t>>, told \/ gsf)
        /\ T' = [W EXCEPT !.stamp = stamp, !.vel = Upd(T.vel, "reject_hor_vel"), !.pos = Upd(T.pos, "reject_hor_pos"),
                          !.oth = IF Moved(p, r, "flow", "x") \/ Moved(p, r, "ev", "x") \/ "opt_flow" \in cs \/ gsf THEN <<T.oth[1], t>> ELSE T.oth,
                          !.obs = IF on /\ ready /\ ks # {} THEN <<s.vn, s.ve>> ELSE @]
  /\ prev' = Ev /\ UNCHANGED g
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
