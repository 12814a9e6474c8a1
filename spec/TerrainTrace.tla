---------------------------- MODULE TerrainTrace ----------------------------
(* Recorded flights: the terrain height, its measurements, validity and sensor bits. *)
EXTENDS EkfIntake, Terrain, Why, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, I, prev, T
vars == <<l, g, I, prev, T>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
(* m: recent range messages; ks: possible states; dull: last time a range reading may be unfit; poor: last unfit flow message; full: flow ought to serve since *)
T0 == [m |-> <<>>, ks |-> {}, dull |-> 0, poor |-> 0, full |-> 0, fl |-> 0, try |-> -10000000, rt |-> 0, ft |-> 0, t0 |-> 0]
Init == l = 1 /\ g = None /\ I = None /\ prev = None /\ T = T0
New == Is("new") /\ g' = Ev /\ I' = InNew(Ev) /\ prev' = None /\ T' = T0
Raw == {"fusion_mode", "terrain_fusion_mode", "flow_qual_min"}
Par == Is("par") /\ I' = InPar(I, Ev.n, Ev.v) /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n \in Raw THEN Ev.v \div 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<prev, T>>
Call == Is("call") /\ UNCHANGED <<g, I, prev, T>>
Last8(q) == IF Len(q) > 24 THEN SubSeq(q, Len(q) - 23, Len(q)) ELSE q
RECURSIVE Watch(_, _, _, _)
Watch(W, d, k, S) ==
  IF k > Len(d) THEN W
  ELSE LET m == d[k] IN
       Watch(CASE m[1] = "rng" -> [W EXCEPT !.m = IF m[2] = S.rng.last THEN Last8(Append(@, m)) ELSE @, !.rt = m[2],
                                            !.dull = IF m[4] = 0 \/ m[3] < 400 \/ m[3] > 28000 \/ m[2] - W.rt > 120000 THEN m[2] ELSE @]
               [] m[1] = "flow" /\ m[2] = S.flow.last -> [W EXCEPT !.ft = m[2], !.poor = IF m[3] < g.flow_qual_min \/ m[5] > 4000 \/ m[2] - W.ft > 60000 \/ 100 * m[4] < 85 * (m[2] - W.ft) \/ 100 * m[4] > 115 * (m[2] - W.ft) THEN m[2] ELSE @]
               [] OTHER -> W, d, k + 1, S)
Take(st, r) == Watch(T, r.d, 1, st.I.S)
Pre == Is("p") /\ prev = None /\ LET st == InStep(I, Ev.t, Ev.d, Unstarted) IN I' = st.I /\ T' = Take(st, Ev) /\ UNCHANGED <<g, prev>>
UseR == Bit(g.terrain_fusion_mode, 1)
UseF == Bit(g.terrain_fusion_mode, 2)
Moved(p, r, n) == p.in[n]["x"] # r.in[n]["x"] /\ (\E k \in DOMAIN r.in[n].v : r.in[n].v[k] # 0)
Sq(x) == x * x
Flat(q) == 100000 - (2 * ((q[2] \div 10) * (q[2] \div 10) + (q[3] \div 10) * (q[3] \div 10))) \div 1000
Shows(k, c, r, t0) ==
  /\ r.tv = Valid(k, r.t)
  /\ (r.t - t0 > 5100000) => (Bit(r.ts, 1) = ByRange(k, c, r.t) /\ Bit(r.ts, 2) = ByFlow(k, c, r.t))
First == /\ Is("u") /\ prev = None
         /\ LET st == InStep(I, Ev.t, Ev.d, SNames) IN
            /\ I' = st.I
            /\ T' = [Take(st, Ev) EXCEPT !.ks = {k \in {StartTerrain("in_air" \in ToSet(Ev.cs), Ev.t), [StartTerrain(TRUE, Ev.t) EXCEPT !.init = st.ready["rng"]]} : Ev.tv = Valid(k, Ev.t)},
                                         !.dull = Ev.t, !.poor = Ev.t, !.full = Ev.t, !.t0 = Ev.t]
         /\ prev' = Ev /\ UNCHANGED g
Step ==
  /\ Is("u") /\ prev # None
  /\ \E st \in {InStep(I, Ev.t, Ev.d, SNames)} : \E W \in {Take(st, Ev)} :
     \E cs \in {ToSet(Ev.cs)} : \E was \in {ToSet(prev.cs)} : \E nf \in {ToSet(Ev.nf)} :
     LET r == Ev p == prev t == r.t
         air == "in_air" \in cs
         ks == {k \in 1..Len(W.m) : W.m[k][2] - DelayOf(g, "rng") - 5000 = st.stamp["rng"]}
         reading == W.m[CHOOSE k \in ks : TRUE][3]
         known == st.ready["rng"] /\ ks # {}
         ct == Flat(p.q)
         dist == ((reading \div 10) * (ct \div 100)) \div 100
         tried == Moved(p, r, "hagl") \/ (st.ready["rng"] /\ air /\ "in_air" \in was /\ UseR /\ r.tvar < p.tvar /\ ~Moved(p, r, "flow") /\ \A k \in T.ks : k.init)   \* equal readings may give equal digests
         okR == tried /\ r.in.hagl.n[1] <= ((Sq(g.range_innov_gate) \div 10) * 999) \div 1000
         noR == tried /\ r.in.hagl.n[1] > ((Sq(g.range_innov_gate) \div 10) * 1001) \div 1000
         Begins == \E k \in T.ks : ~k.init
         Rs == IF air /\ Begins /\ st.ready["rng"] THEN {"none", "ok"} ELSE IF ~tried THEN {"none"} ELSE IF okR THEN {"ok"} ELSE IF noR THEN {"refused"} ELSE {"ok", "refused"}
         ftried == Moved(p, r, "flow") /\ "opt_flow" \notin was
         lim == Sq(Most(g.flow_innov_gate, 100)) \div 10
         fok == ftried /\ \E k \in 1..2 : r.in.flow.n[k] <= (lim * 99) \div 100
         fno == ftried /\ \A k \in 1..2 : r.in.flow.n[k] > (lim * 101) \div 100
         Fs == (IF fok THEN {"taken"} ELSE IF fno THEN {"refused"} ELSE IF ftried THEN {"taken", "refused"} ELSE {"none"}) \cup (IF "opt_flow" \in cs THEN {"none"} ELSE {}) \cup (IF Begins \/ T.fl = t THEN {"none", "taken"} ELSE {})
         C(a, f) == [air |-> air, useR |-> UseR, useF |-> UseF, range |-> a, flow |-> f]
         fit == {z \in T.ks \X Rs \X Fs : Shows(TerrainStep(z[1], C(z[2], z[3]), t), C(z[2], z[3]), r, T.t0)}
         clr == g.rng_gnd_clearance
         pd == r.vp[6]
         begun == \A k \in T.ks : k.init
         oldest == \A k \in T.ks : Over(k.hagl, 10030000, t)
         youngest == \A k \in T.ks : ~Over(k.hagl, 9970000, t)
         i == r.in.hagl.i[1] \div 10          \* 1e-3 m
         v == r.in.hagl.v[1] \div 1000        \* 1e-3 m^2
         gain == IF v <= 0 THEN 0 ELSE Least(1000, (Least(p.tvar, 1000000) * 1000) \div v)
         speed == (g.terrain_gradient * (AbsI(r.vp[1]) + AbsI(r.vp[2]))) \div 1000
         grow == (Sq(Least(g.terrain_p_noise, 40000)) + Sq(Least(speed, 30000))) \div 10000000
         near(a, b, e) == AbsI(a - b) <= e
         full == IF air /\ "in_air" \in was /\ "gps" \in was /\ "opt_flow" \notin (was \cup cs) /\ UseF /\ begun /\ (\A k \in T.ks : Over(k.hagl, 5050000, t)) /\ ct > 85000 THEN W.full ELSE t
     IN /\ I' = st.I
        /\ Chk(<<"validity and sensors", T.ks, Rs, Fs, r.tv, r.ts, t>>, fit # {})
        (* readings are used exactly in flight, when selected *)
        /\ Chk("range reading used", tried => (air /\ UseR /\ st.ready["rng"]))
        /\ (air /\ "in_air" \in was /\ UseR /\ begun /\ known /\ t - T.try < 9000000 /\ t - W.dull > 3000000 /\ ct > 80000) => Chk(<<"healthy reading used", T.m, W.dull, ct, known>>, tried)
        /\ Chk("flow used", (ftried /\ "opt_flow" \notin cs) => (air /\ UseF /\ "gps" \in was /\ (t = T.fl \/ \E k \in T.ks : Over(k.hagl, 4980000, t) \/ ~k.init)))
        /\ Chk(<<"flow serves", full, W.poor, T.fl, t>>, t - full < 500000 \/ t - W.poor < 500000 \/ t - T.fl < 500000 \/ ftried)
        (* heights *)
        /\ Chk(<<"variance", r.tvar>>, r.tvar >= 0 /\ (r.tvar <= 10000000 \/ noR))
        /\ (~air) => Chk(<<"ground", r.tp, pd, r.tvar>>, near(r.tp, pd + clr, 2) /\ near(r.tvar, Sq(clr) \div 1000, 2))
        /\ (air /\ begun) => Chk(<<"below the vehicle", r.tp, pd>>, r.tp >= pd + clr - 2)
        /\ (tried /\ known) => Chk(<<"height over the reading", i, p.tp, pd, dist>>, near(i, (p.tp - pd) - dist, 60 + dist \div 50))
        /\ (air /\ begun /\ ~tried /\ ~ftried /\ T.fl # t) =>
             /\ Chk(<<"kept", p.tp, r.tp, pd, clr>>, near(r.tp, Below(p.tp, pd, clr), 2))
             /\ Chk(<<"grows", p.tvar, r.tvar, grow>>, r.tvar >= 9999990 \/ (r.tvar - p.tvar <= (grow * 15) \div 10 + 3 /\ r.tvar - p.tvar >= (grow * 4) \div 10 - 2))
        /\ (air /\ begun /\ tried /\ ~ftried /\ okR) =>
             /\ Chk(<<"measured", p.tp, r.tp, i, gain>>, near(r.tp, Below(p.tp - (gain * Most(-1000000, Least(1000000, i))) \div 1000, pd, clr), 15 + AbsI(i) \div 10))
             /\ Chk(<<"less uncertain", p.tvar, r.tvar, v>>, r.tvar <= p.tvar + (grow * 15) \div 10 + 3 /\ r.tvar <= v + 1)
        /\ (air /\ begun /\ noR /\ ~ftried) => 
             Chk(<<"refused", p.tp, r.tp, T.ks>>, (~oldest /\ near(r.tp, Below(p.tp, pd, clr), 2)) \/ (~youngest /\ known /\ near(r.tp, Below(pd + dist, pd, clr), 60 + dist \div 50)))
        /\ T' = [W EXCEPT !.ks = {TerrainStep(z[1], C(z[2], z[3]), t) : z \in fit}, !.fl = IF ftried THEN t ELSE @, !.try = IF tried THEN t ELSE @, !.full = full,
                          !.dull = IF ct < 80000 THEN t ELSE @]
        /\ prev' = Ev /\ UNCHANGED g
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
