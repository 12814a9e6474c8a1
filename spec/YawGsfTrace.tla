----------------------------- MODULE YawGsfTrace -----------------------------
(* Recorded flights: the bank of headings, its composite and the yaw resets taken from it. *)
EXTENDS EkfIntake, YawGsf, Why, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, I, prev, T
vars == <<l, g, I, prev, T>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Turn == 62832
Wr(a) == ((a + 31416) % Turn) - 31416
Zero == -1000000
M == 1..Models
(* stamp: last GNSS sample at the horizon; pend: velocity waiting for the bank, [v, acc]; used: instant of the last velocity used; vel: earliest and latest instant of the last accepted horizontal velocity;
   pos: the same for position; oth: of flow or odometry; ground: last instant on the ground; obs, acc: last GNSS velocity and its accuracy; want, last, n: resets; dirty: last velocity that was not the truth; ex: change of velocity since *)
T0 == [stamp |-> Zero, pend |-> FALSE, used |-> Zero, vel |-> <<0, 0>>, pos |-> <<0, 0>>, oth |-> <<0, 0>>, ground |-> 0, obs |-> <<0, 0>>, acc |-> 0, want |-> FALSE, last |-> Zero - 1, n |-> 0, dirty |-> -20000000, ex |-> 0, since |-> 0, gl |-> <<0, 0, 0, 0, 0>>, m |-> <<>>]
Init == l = 1 /\ g = None /\ I = None /\ prev = None /\ T = T0
New == Is("new") /\ g' = Ev /\ I' = InNew(Ev) /\ prev' = None /\ T' = T0
Raw == {"fusion_mode", "vdist_sensor_type", "gps_check_mask", "reset_timeout_max", "EKFGSF_reset_count_limit", "EKFGSF_reset_delay", "mag_fusion_type"}
Par == Is("par") /\ I' = InPar(I, Ev.n, Ev.v) /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n \in Raw THEN Ev.v \div 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<prev, T>>
Call == Is("call") /\ T' = (IF Ev.n = "navreset" THEN [T EXCEPT !.want = TRUE] ELSE T) /\ UNCHANGED <<g, I, prev>>
Last(q) == IF Len(q) > 12 THEN SubSeq(q, Len(q) - 11, Len(q)) ELSE q
RECURSIVE Watch(_, _, _, _)
Watch(W, d, k, last) ==
  IF k > Len(d) THEN W
  ELSE Watch(IF d[k][1] = "gps" /\ d[k][2] = last THEN [W EXCEPT !.m = Last(Append(@, d[k]))] ELSE W, d, k + 1, last)
Take(st, r) == Watch(T, r.d, 1, st.I.S.gps.last)
Pre == Is("p") /\ prev = None /\ LET st == InStep(I, Ev.t, Ev.d, Unstarted) IN I' = st.I /\ T' = Take(st, Ev) /\ UNCHANGED <<g, prev>>
First == /\ Is("u") /\ prev = None
         /\ LET st == InStep(I, Ev.t, Ev.d, SNames \ {"flow"}) IN
            /\ I' = st.I
            /\ T' = [Take(st, Ev) EXCEPT !.vel = <<Ev.t, Ev.t>>, !.pos = <<Ev.t, Ev.t>>, !.oth = <<Ev.t, Ev.t>>, !.ground = Ev.t, !.stamp = IF st.ready["gps"] THEN st.stamp["gps"] ELSE @, !.pend = st.ready["gps"]]
         /\ prev' = Ev /\ UNCHANGED g
Moved(p, r, n, x) == p.in[n][x] # r.in[n][x]
Hyp2(a, b) == (a \div 10) * (a \div 10) + (b \div 10) * (b \div 10)        \* (cm/s)^2
(* the velocity estimate and the last velocity point in clearly (FALSE: possibly) different directions, both clearly (possibly) above their noise *)
Suspect(v, o, acc, pv, sure) ==
  LET nv == Hyp2(v[1], v[2]) no == Hyp2(o[1], o[2])
      dot == (v[1] \div 10) * (o[1] \div 10) + (v[2] \div 10) * (o[2] \div 10)
      lim == (32 * (acc \div 10) * (acc \div 10))
      limv == (16 * (pv[1] + pv[2])) \div 100
      f(x) == IF sure THEN x + x \div 5 ELSE x - x \div 5
      cut == IF sure THEN 77 ELSE 87
  IN /\ no > f(MaxI(lim, 10000)) /\ nv > f(MaxI(limv, 10000))
     /\ (dot < 0 \/ (dot \div 100) * (dot \div 100) < (((nv \div 100) * (no \div 100)) \div 100) * cut)
Msg(W, stamp, d) == {k \in 1..Len(W.m) : W.m[k][2] - d - 5000 = stamp}
(* log of the ratio of two weights against the innovations (mm/s) and the accuracy (mm/s): bounds, 1/1000 *)
Sq(a) == ((a \div 10) * (a \div 10)) \div 10          \* 1/1000 (m/s)^2
Step ==
  /\ Is("u") /\ prev # None
  /\ \E st \in {InStep(I, Ev.t, Ev.d, SNames \ {"flow"})} : \E W \in {Take(st, Ev)} :
     LET r == Ev p == prev t == r.t
         cs == ToSet(r.cs) was == ToSet(p.cs) we == ToSet(r.we) ie == ToSet(r.ie) nf == ToSet(r.nf)
         ready == st.ready["gps"]
         stamp == IF ready THEN st.stamp["gps"] ELSE T.stamp
         ks == Msg(W, stamp, DelayOf(g, "gps"))
         known == ready /\ ks # {}
         s == W.m[CHOOSE k \in ks : TRUE][6]
         air == "in_air" \in cs
         (* the bank *)
         vel == T.pend
         starts == Starts(p.gok, air, vel)
         both == p.gok /\ r.gok
         collapsed == p.gok /\ air /\ vel /\ ~r.gok
         dty == r.ty - p.ty
         dy(k) == Wr(Wr(r.gys[k] - p.gys[k]) - Wr(dty))
         part == r.gv - r.gvs
         vacc == MaxI(T.acc, 500)
         smin == Sq(vacc) smax == 3 * smin + 300 + (p.gv - p.gvs) \div 10 slack == IF smax > 6 * smin THEN 3000 ELSE 1800
         (* resets *)
         measured == {"ev_yaw", "gps_yaw"}
         asked == g.mag_fusion_type = 5 /\ ~p.ogn /\ r.ogn /\ measured \cap was = {}
         want == (T.want \/ asked) /\ measured \cap (cs \ was) = {}
         last == IF asked THEN Zero - 1 ELSE T.last
         on == "gps" \in cs
         quiet == ~Moved(p, r, "ev", "x") /\ ~Moved(p, r, "aux", "x") /\ ~Moved(p, r, "flow", "x")
         took == "emergency_yaw_reset_mag_stopped" \in we \/ "yaw_aligned_to_imu_gps" \in ie
         told == "gps_fusion_timout" \in we
         wait == g.reset_timeout_max
         lastPos == Over(T.pos[2], wait, t) /\ Over(T.vel[2], wait, t) /\ Over(T.oth[2], wait, t)
         nothing == (lastPos \/ Over(T.pos[2], 2 * wait, t)) /\ T.pos[1] > T.ground
         failMust == air /\ T.vel[1] > T.ground /\ (nothing \/ (t - T.ground < 30000000 /\ Over(T.vel[2], g.EKFGSF_reset_delay, t))) /\ Suspect(p.vp, T.obs, MaxI(T.acc, 500), p.vva, TRUE)
         failMay == air /\ (Over(T.vel[1], g.EKFGSF_reset_delay, t) \/ Over(T.vel[1], wait, t) \/ Over(T.pos[1], wait, t)) /\ Suspect(p.vp, T.obs, T.acc, p.vva, FALSE)
         lim == ((g.EKFGSF_yaw_err_max \div 10) * (g.EKFGSF_yaw_err_max \div 10)) \div 10
         C(f, sure) == [aiding |-> on, ready |-> ready, want |-> want, fail |-> f, n |-> T.n, limit |-> g.EKFGSF_reset_count_limit, last |-> last, prev |-> T.stamp, data |-> p.gok, sure |-> sure]
         may == TakesYaw(C(failMay, p.gv < lim + lim \div 50 + 2), t)
         must == TakesYaw(C(failMust, p.gv < lim - lim \div 50 - 2), t)
         tryG == Moved(p, r, "gps", "x") /\ on /\ ready
         Upd(x, flag) == IF told \/ took THEN <<t, t>>
                         ELSE IF tryG /\ quiet THEN (IF flag \notin nf THEN <<t, t>> ELSE x)
                         ELSE IF tryG \/ ~quiet \/ ~on THEN <<x[1], t>> ELSE x
         true == ~known \/ (s.sacc <= 600 /\ AbsI(s.vn - r.tv3[1]) <= 450 /\ AbsI(s.ve - r.tv3[2]) <= 450)
         (* a gyroscope that is wrong by more than half a radian per second *)
         astray == both /\ ~vel /\ \A k \in M : AbsI(dy(k)) > 50
         dirty == IF true /\ ~astray /\ ~(ready /\ stamp - T.stamp > 700000) THEN T.dirty ELSE t
         ex == IF ~r.gok \/ starts \/ dirty = t THEN 0 ELSE T.ex + MaxI(AbsI(r.tv3[1] - p.tv3[1]), AbsI(r.tv3[2] - p.tv3[2]))
         since == IF dirty = t THEN t + 20000000 ELSE IF ~r.gok \/ starts THEN MaxI(t, T.dirty + 20000000) ELSE T.since
         clean == r.gok /\ t - since > 12000000 /\ ex > 25000 /\ t - stamp < 700000
     IN /\ I' = st.I
        /\ Chk(<<"data only in use", p.gok, air, vel>>, r.gok = Runs(p.gok, air, vel, collapsed))
        /\ collapsed => Chk(<<"gave up on good velocities", t - T.dirty>>, t - T.dirty < 30000000)
        /\ r.gok => /\ Chk(<<"weights", r.gws>>, (\A k \in M : r.gws[k] >= 9) /\ AbsI(r.gws[1] + r.gws[2] + r.gws[3] + r.gws[4] + r.gws[5] - 1000000) <= 5)
                    /\ (r.gwl > 1000) => Chk(<<"composite", r.gy, r.gwm>>, AbsI(Wr(r.gy - r.gwm)) <= 8)
                    /\ Chk(<<"variance", r.gv, r.gvs>>, part >= -3 /\ part <= 43000)
        /\ starts => /\ Chk(<<"evenly spaced", r.gys>>, \A k \in M : AbsI(r.gys[k] - Centre(k, Turn)) <= 3)
                     /\ Chk(<<"equal weights", r.gws>>, \A k \in M : AbsI(r.gws[k] - 200000) <= 1)
                     /\ Chk(<<"first variance", part>>, AbsI(part - 39478) <= 20)
        /\ (both /\ ~vel) => /\ Chk(<<"weights kept", p.gws, r.gws>>, \A k \in M : AbsI(r.gws[k] - p.gws[k]) <= 1)
                             /\ Chk(<<"variance kept", part, p.gv - p.gvs>>, AbsI(part - (p.gv - p.gvs)) <= 4)
                             /\ \A k \in M : Chk(<<"turns with the vehicle", k, dy(k)>>, AbsI(dy(k)) <= 250 \/ (AbsI(dy(k)) <= 1200 /\ T.gl[k] < t - 15000) \/ AbsI(dy(k)) <= 600)
        /\ (both /\ vel /\ t - T.used < 450000 /\ t - T.since > 4000000 /\ p.gv - p.gvs < 4000) =>
             \A i, j \in M : (r.gis[i] >= r.gis[j] /\ p.gln[i] > -7500 /\ p.gln[j] > -7500 /\ r.gln[j] > -7500 /\ \E k \in M : r.gws[k] < MinI(r.gws[i], r.gws[j]) - 1) =>
                LET d == (r.gln[i] - r.gln[j]) - (p.gln[i] - p.gln[j])
                    A(x, z) == (Sq(x) * 500) \div z
                IN /\ Chk(<<"evidence counts", r.gis[i], r.gis[j], d, vacc>>, d <= -A(r.gis[i], smax) + A(r.gis[j], smin) + slack)
                   /\ (r.gln[i] > -7500) => Chk(<<"evidence is not overrated", r.gis[i], r.gis[j], d, vacc>>, d >= -A(r.gis[i], smin) + A(r.gis[j], smax) - slack)
        /\ (both /\ vel) => \A k \in M : (p.gws[k] > 800000) =>
             Chk(<<"correction limited", dy(k), p.gv>>, LET d == MaxI(0, AbsI(dy(k)) - 60) IN d < 20000 /\ (d * d) \div 1000 <= (29 * p.gv) + 50)
        /\ clean => /\ Chk(<<"knows the heading", r.gy, Wr(r.ty), r.gv, ex>>, AbsI(Wr(r.gy - r.ty)) <= 4500)
                    /\ Chk(<<"is sure of the heading", r.gv, ex>>, r.gv <= 8000)
        (* resets of the filter's yaw *)
        /\ took => /\ Chk(<<"yaw reset without reason", C(failMay, TRUE), p.gv, lim, t>>, may)
                   /\ Chk("yaw reset counted", (r.rc[5] - p.rc[5] + 256) % 256 >= 1)
                   /\ Chk(<<"at the yaw of the bank", r.ty + r.ye, p.gy>>, AbsI(Wr(r.ty + r.ye - p.gy)) <= 400)
                   /\ Chk("aligned, without the magnetometer", "yaw_align" \in cs /\ (g.mag_fusion_type = 5 \/ "mag_fault" \in cs))
                   /\ (on /\ known /\ quiet) => Chk(<<"with the GNSS velocity", s.vn, s.ve, r.vp>>, AbsI(r.vp[1] - s.vn) <= 100 /\ AbsI(r.vp[2] - s.ve) <= 100)
        /\ (must /\ quiet) => Chk(<<"yaw not reset", C(failMust, TRUE), p.gv, lim, t>>, took)
        /\ T' = [W EXCEPT !.stamp = stamp, !.pend = ready, !.used = IF vel THEN t ELSE T.used, !.vel = Upd(T.vel, "reject_hor_vel"), !.pos = Upd(T.pos, "reject_hor_pos"),
                          !.oth = IF Moved(p, r, "flow", "x") \/ Moved(p, r, "ev", "x") \/ "opt_flow" \in cs \/ took THEN <<T.oth[1], t>> ELSE T.oth,
                          !.ground = IF air THEN @ ELSE t, !.obs = IF on /\ known THEN <<s.vn, s.ve>> ELSE @, !.acc = IF known THEN s.sacc ELSE @,
                          !.want = want /\ ~took, !.last = IF took THEN t ELSE last, !.n = IF took /\ on THEN @ + 1 ELSE @, !.dirty = dirty, !.ex = ex, !.since = since, !.gl = [k \in M |-> IF both /\ AbsI(dy(k)) > 250 THEN t ELSE @[k]]]
  /\ prev' = Ev /\ UNCHANGED g
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
