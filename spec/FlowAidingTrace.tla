--------------------------- MODULE FlowAidingTrace ---------------------------
(* Recorded flights: start, end, samples and resets of optical flow aiding. *)
EXTENDS EkfIntake, FlowAiding, Why, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, I, prev, T, M
vars == <<l, g, I, prev, T, M>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
(* m: recent flow messages; h0, h: horizon at the start and at the last sample; stamp: last sample; of, hagl: last accepted flow / range measurement;
   e: GNSS error norm (lower, upper, 1e-3); land: on the ground since; known: last known position *)
T0 == [m |-> <<>>, h0 |-> 0, h |-> 0, stamp |-> 0, of |-> <<0, 0>>, hagl |-> <<0, 0>>, e |-> 0, land |-> 0, known |-> <<0, 0>>, sure |-> FALSE]
Init == l = 1 /\ g = None /\ I = None /\ prev = None /\ T = T0 /\ M = 0
New == Is("new") /\ g' = Ev /\ I' = InNew(Ev) /\ prev' = None /\ T' = T0 /\ UNCHANGED M
Raw == {"fusion_mode", "reset_timeout_max", "flow_qual_min"}
Par == Is("par") /\ I' = InPar(I, Ev.n, Ev.v) /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n \in Raw THEN Ev.v \div 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<prev, T, M>>
Call == Is("call") /\ M' = (IF Ev.n = "flowlim" THEN Ev.a[2] \div 1000 ELSE M) /\ UNCHANGED <<g, I, prev, T>>
Last6(q) == IF Len(q) > 30 THEN SubSeq(q, Len(q) - 29, Len(q)) ELSE q
Most(a, b) == IF a > b THEN a ELSE b
RECURSIVE Watch(_, _, _, _)
Watch(W, d, k, S) ==
  IF k > Len(d) THEN W
  ELSE LET m == d[k] IN
       Watch(CASE m[1] = "flow" /\ m[2] = S.flow.last -> [W EXCEPT !.m = Last6(Append(@, m))]
               [] m[1] = "gps" /\ m[2] = S.gps.last -> [W EXCEPT !.e = Most(Most((m[6].eph * 1000) \div g.req_hacc, (m[6].epv * 1000) \div g.req_vacc), (m[6].sacc * 1000) \div g.req_sacc)]
               [] OTHER -> W, d, k + 1, S)
Take(st, r) == Watch(T, r.d, 1, st.I.S)
Pre == Is("p") /\ prev = None /\ LET st == InStep(I, Ev.t, Ev.d, Unstarted) IN I' = st.I /\ T' = Take(st, Ev) /\ UNCHANGED <<g, prev, M>>
First == /\ Is("u") /\ prev = None
         /\ LET st == InStep(I, Ev.t, Ev.d, SNames) IN
            /\ I' = st.I
            /\ Chk("no flow at the start", "opt_flow" \notin ToSet(Ev.cs))
            /\ T' = [Take(st, Ev) EXCEPT !.h0 = st.h, !.h = IF st.ready["flow"] THEN st.h ELSE st.h - 10000, !.stamp = IF st.ready["flow"] THEN st.stamp["flow"] ELSE @, !.hagl = <<Ev.t, Ev.t>>, !.land = st.h, !.known = <<Ev.vp[4], Ev.vp[5]>>]
         /\ prev' = Ev /\ UNCHANGED <<g, M>>
Moved(p, r, n, x) == p.in[n][x] # r.in[n][x]
Flat(q) == 100000 - (2 * ((q[2] \div 10) * (q[2] \div 10) + (q[3] \div 10) * (q[3] \div 10))) \div 1000   \* cosine of the tilt, 1e-5
Bools(must, may) == IF must THEN {TRUE} ELSE IF may THEN {TRUE, FALSE} ELSE {FALSE}
Step ==
  /\ Is("u") /\ prev # None
  /\ \E st \in {InStep(I, Ev.t, Ev.d, SNames)} : \E W \in {Take(st, Ev)} :
     LET r == Ev p == prev t == r.t
         cs == ToSet(r.cs) was == ToSet(p.cs) ie == ToSet(r.ie) nf == ToSet(r.nf)
         ready == st.ready["flow"] h == st.h
         stamp == IF ready THEN st.stamp["flow"] ELSE T.stamp
         ks == ({k \in 1..Len(W.m) : W.m[k][2] - DelayOf(g, "flow") - 5000 = stamp})
         s == W.m[CHOOSE k \in ks : TRUE]
         acc == (h - T.h)
         comp == acc <= 1000000
         air == "in_air" \in cs
         par(sgn, tol) == [qual |-> g.flow_qual_min, maxrate |-> M + sgn * 5, level |-> Flat(p.q) > 70710 - sgn * 1500]
         strict == Good(s[3], s[5], s[4], acc, par(-1, 0)) /\ 100 * s[4] >= 83 * acc /\ 100 * s[4] <= 117 * acc
         loose == Good(s[3], s[5], s[4], acc, par(1, 0)) \/ (s[3] >= g.flow_qual_min /\ s[5] <= M + 5 /\ Flat(p.q) > 69210 /\ 100 * s[4] >= 77 * acc /\ 100 * s[4] <= 123 * acc)
         Us == (IF ~ready THEN {FALSE} ELSE IF AbsI(acc - 1000000) < 30000 THEN {TRUE, FALSE} ELSE IF ks = {} THEN {TRUE, FALSE} ELSE {FlowUsable(b, comp, air) : b \in Bools(strict, loose)})
         other == was \cap {"gps", "ev_pos", "ev_vel"} # {} \/ {"fuse_aspd", "fuse_beta"} \subseteq was
         on == "opt_flow" \in was
         land == IF air THEN h ELSE T.land
         Bads == (IF "gps" \notin was THEN {FALSE} ELSE Bools(W.e > (IF on THEN 715 ELSE 1015), W.e > (IF on THEN 685 ELSE 985)))
         Motions == (IF air THEN {TRUE} ELSE IF h < 3990000 THEN {FALSE} ELSE IF h - land > 7000000 THEN {TRUE} ELSE {TRUE, FALSE})
         Hagls == (Bools(T.hagl[1] + Coast > t, T.hagl[2] + Coast > t))
         yaws == (IF "yaw_align" \notin cs THEN {FALSE} \cup (IF "yaw_align" \in was THEN {TRUE} ELSE {}) ELSE {TRUE} \cup (IF "yaw_align" \notin was THEN {FALSE} ELSE {}))
         tried == Moved(p, r, "flow", "x") /\ r.in.flow.v[1] # 0
         pass == nf \cap {"reject_optflow_X", "reject_optflow_Y"} = {}
         wait == g.reset_timeout_max
         C(u, m, b, hg, y, of) == [on |-> on, sel |-> Bit(g.fusion_mode, 2), tilt |-> "tilt_align" \in cs, yaw |-> y, air |-> air, ready |-> ready, usable |-> u, silent |-> h > stamp + Coast,
                  motion |-> m, terrain |-> p.tv, hagl |-> hg, dead |-> p.dr, other |-> other, bad |-> b, of |-> of]
         nv == (r.rc[1] - p.rc[1] + 256) % 256
         np == (r.rc[2] - p.rc[2] + 256) % 256
         (* other causes of resets in the step *)
         foreign == (ie \cup ToSet(r.we)) \cap {"starting_gps_fusion", "starting_vision_pos_fusion", "starting_vision_vel_fusion", "reset_pos_to_gps", "reset_vel_to_gps", "reset_pos_to_vision", "reset_vel_to_vision", "emergency_yaw_reset_mag_stopped", "yaw_aligned_to_imu_gps", "reset_vel_to_zero"} # {}
         Fits(a) == /\ a.on = ("opt_flow" \in cs)
                    (* outside the main filter flow may still serve the terrain estimate *)
                    /\ (a.on /\ tried => a.tries) /\ (a.tries => tried)
                    /\ a.resets > 0 => (nv >= a.resets /\ np >= a.resets /\ {"reset_vel_to_flow", "reset_pos_to_last_known"} \subseteq ie)
                    /\ (a.resets = 0 /\ ~foreign) => "reset_vel_to_flow" \notin ie
         Some(x) == IF TRUE \in Us THEN x ELSE {CHOOSE z \in x : TRUE}
         Cs == {C(u, m, b, hg, yw, of) : u \in Us, m \in Some(Motions), b \in Some(Bads), hg \in Some(Hagls), yw \in Some(yaws), of \in {T.of[1], T.of[2]}}
         Outs == {Flow(c, wait, t, pass) : c \in Cs}
         fit0 == {a \in Outs : Fits(a)}
     IN \E fit \in {fit0} : LET a0 == CHOOSE a \in fit : TRUE startOrReset == \E a \in fit : a.resets > 0 IN
        /\ I' = st.I
        /\ Chk(<<"flow aiding", [us |-> Us, bads |-> Bads, mo |-> Motions, hagls |-> Hagls, yaws |-> yaws, tried |-> tried, pass |-> pass, on |-> on, cs |-> "opt_flow" \in cs, nv |-> nv, np |-> np, of |-> T.of, tv |-> p.tv, dr |-> p.dr,
                                 other |-> other, acc |-> acc, lvl |-> Flat(p.q)], ie, s>>, fit # {})
        /\ (\A a \in fit : a.resets = 0) \/ tried
           \/ Chk(<<"velocity from flow", r.vp, r.tv3>>, foreign \/ ~T.sure \/ p.rc[5] # r.rc[5] \/ (AbsI(r.vp[1] - r.tv3[1]) <= 1200 /\ AbsI(r.vp[2] - r.tv3[2]) <= 1200))
        (* nothing but flow left alone resets to flow; other aiding is left as it is *)
        /\ ("opt_flow" \in cs /\ "gps" \in was /\ "fixed_wing" \notin cs /\ ToSet(r.we) \cap {"gps_fusion_timout"} = {} /\ (ie \cup ToSet(r.we)) \cap {"starting_gps_fusion", "emergency_yaw_reset_mag_stopped", "yaw_aligned_to_imu_gps"} = {})
           => Chk("no reset while GNSS aids", "reset_vel_to_gps" \notin ie)
        (* a good sample measures the motion over ground, without the rotation of the body; a bad one on the ground stands for no motion *)
        /\ (tried /\ ready /\ ks # {} /\ comp /\ air /\ strict /\ s[6] = 0 /\ T.sure /\ r.te < 200 /\ r.ve < 300 /\ r.tp3[3] < -1000)
           => Chk(<<"flow measures the motion", r.in.flow.i, s>>, \A k \in 1..2 : AbsI(r.in.flow.i[k]) <= 2000 + (r.ve * 10000) \div (0 - r.tp3[3]))
        /\ (tried /\ ready /\ ks # {} /\ ~air /\ Us = {TRUE} /\ s[3] < g.flow_qual_min) => Chk(<<"no motion on the ground", r.in.flow.i, p.vp>>, \A k \in 1..2 : AbsI(r.in.flow.i[k]) <= 1000 + 100 * (AbsI(p.vp[1]) + AbsI(p.vp[2]) + AbsI(p.vp[3])) )
        /\ (startOrReset /\ ~foreign /\ ~tried) => Chk(<<"position kept", r.vp, T.known>>, IF air THEN AbsI(r.vp[4] - T.known[1]) <= 3 /\ AbsI(r.vp[5] - T.known[2]) <= 3 ELSE AbsI(r.vp[4]) <= 1 /\ AbsI(r.vp[5]) <= 1)
        /\ T' = [W EXCEPT !.stamp = stamp, !.h = IF ready THEN h ELSE @, !.land = land,
                          !.of = IF fit = {} THEN @ ELSE IF Cardinality({a.of : a \in fit}) = 1 THEN <<a0.of, a0.of>> ELSE <<T.of[1], t>>,
                          !.hagl = IF ~air THEN <<t, t>> ELSE IF ~Moved(p, r, "hagl", "x") THEN @ ELSE IF "reject_hagl" \notin nf THEN <<t, t>> ELSE <<T.hagl[1], T.hagl[2]>>,
                          !.known = <<r.vp[4], r.vp[5]>>,
                          !.sure = air /\ p.tv /\ AbsI((p.tp - p.vp[6]) - (0 - p.tp3[3])) <= 400 + (0 - p.tp3[3]) \div 10]
  /\ prev' = Ev /\ UNCHANGED <<g, M>>
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
