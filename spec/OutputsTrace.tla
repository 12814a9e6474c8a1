---------------------------- MODULE OutputsTrace ---------------------------
(* Recorded flights, every raw IMU sample: outputs, states at the horizon and the raw motion. *)
EXTENDS Outputs, Why, FiniteSets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, prev, T
vars == <<l, g, prev, T>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
V3 == 1..3
Max3(v) == MaxI(AbsI(v[1]), MaxI(AbsI(v[2]), AbsI(v[3])))
(* rotation by a quaternion scaled by 30000; entries of the matrix scaled by 30000 *)
MQ(q, a, b) == RoundDiv(q[a] * q[b], 30000)
Row(q, k) == CASE k = 1 -> <<30000 - 2 * (MQ(q, 3, 3) + MQ(q, 4, 4)), 2 * (MQ(q, 2, 3) - MQ(q, 1, 4)), 2 * (MQ(q, 2, 4) + MQ(q, 1, 3))>>
               [] k = 2 -> <<2 * (MQ(q, 2, 3) + MQ(q, 1, 4)), 30000 - 2 * (MQ(q, 2, 2) + MQ(q, 4, 4)), 2 * (MQ(q, 3, 4) - MQ(q, 1, 2))>>
               [] OTHER -> <<2 * (MQ(q, 2, 4) - MQ(q, 1, 3)), 2 * (MQ(q, 3, 4) + MQ(q, 1, 2)), 30000 - 2 * (MQ(q, 2, 2) + MQ(q, 3, 3))>>
Times(a, b) == (a \div 30000) * b + RoundDiv((a % 30000) * b, 30000)      \* a * b / 30000, |b| <= 60000
Rot(q, v) == LET m == <<Row(q, 1), Row(q, 2), Row(q, 3)>> IN [k \in V3 |-> Times(v[1], m[k][1]) + Times(v[2], m[k][2]) + Times(v[3], m[k][3])]
(* vector part of conj(a) * b, scaled by 30000 *)
Diff(a, b) == <<RoundDiv(a[1] * b[2] - a[2] * b[1] - a[3] * b[4] + a[4] * b[3], 30000), RoundDiv(a[1] * b[3] + a[2] * b[4] - a[3] * b[1] - a[4] * b[2], 30000), RoundDiv(a[1] * b[4] - a[2] * b[3] + a[3] * b[2] - a[4] * b[1], 30000)>>
DotQ(a, b) == RoundDiv(a[1] * b[1] + a[2] * b[2], 30000) + RoundDiv(a[3] * b[3] + a[4] * b[4], 30000)
(* position and velocity of the IMU: 1e-5 m, 1e-6 m/s *)
Offset == Max3(g.ipb) > 0
PosI(r) == IF ~Offset THEN r.op ELSE LET o == Rot(r.oq, [k \in V3 |-> g.ipb[k] * 100]) IN [k \in V3 |-> r.op[k] + o[k]]
(* rate 1e-4 rad/s from the raw rotation (1e-7 rad) over dt (100 us) *)
Cross(r, dt) == LET w == [k \in V3 |-> RoundDiv(r.ida[k] * 10, dt)] p == g.ipb IN
  Rot(r.oq, <<(w[2] * p[3] - w[3] * p[2]) * 10, (w[3] * p[1] - w[1] * p[3]) * 10, (w[1] * p[2] - w[2] * p[1]) * 10>>)
(* 1e-4 * 1e-3 = 1e-7, in 1e-6 m/s: a tenth *)
VelOff(r, dt) == LET c == Cross(r, dt) IN [k \in V3 |-> RoundDiv(c[k], 100)]
(* T: h history of filter periods since the horizon, each [t, q, a (velocity sum 1e-6), p (position sum 1e-5)]; a, p running sums;
   cv, cp integral parts (1/100), known: they have been taken over; e vertical position error of the alternative loop at the horizon (1e-6), vA its velocity there
   v: velocity of the IMU output, x: its position, vd: alternative vertical velocity; corr: attitude correction in use (1e-7 rad) or unknown *)
T0 == [h |-> <<>>, a |-> <<0, 0, 0>>, p |-> <<0, 0, 0>>, cv |-> <<0, 0, 0>>, cp |-> <<0, 0, 0>>, known |-> FALSE, e |-> 0, eOk |-> FALSE, vA |-> 0, spo |-> 0, ot |-> 0, go |-> FALSE, v |-> <<0, 0, 0>>, x |-> <<0, 0, 0>>, vd |-> 0, corr |-> <<0, 0, 0>>, corrOk |-> FALSE]
Init == l = 1 /\ g = None /\ prev = None /\ T = T0
New == Is("new") /\ g' = Ev /\ prev' = None /\ T' = T0
Par == Is("par") /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = Ev.v] ELSE g) /\ UNCHANGED <<prev, T>>
Other == (Is("call") \/ Is("p") \/ (Is("u") /\ prev = None /\ ~Ev.up)) /\ UNCHANGED <<g, prev, T>>
First == /\ Is("u") /\ prev = None /\ Ev.up
         /\ prev' = Ev /\ T' = [T0 EXCEPT !.v = Ev.ov, !.x = PosI(Ev), !.vd = Ev.ovd] /\ UNCHANGED g
(* entries no longer needed go: the horizon is the first *)
RECURSIVE Drop(_, _)
Drop(h, td) == IF h # <<>> /\ h[1].t < td - 600 THEN Drop(Tail(h), td) ELSE h
Near(a, b, tol) == AbsI(a - b) <= tol
Norm2Ok(n, e, tol) ==      \* n against the length of e; all scaled down when large
  \E s \in {IF MaxI(n, Max3(e)) < 20000 THEN 1 ELSE IF MaxI(n, Max3(e)) < 2000000 THEN 100 ELSE 10000} :
     LET m == n \div s f == [k \in V3 |-> RoundDiv(e[k], s)] w == (tol \div s) + 3
         q == f[1] * f[1] + f[2] * f[2] + f[3] * f[3]
     IN AbsI(m * m - q) <= 2 * m * w + w * w + 4 * w
PeriodMs == 10
Step ==
  /\ Is("u") /\ prev # None
  /\ \E dt \in {(Ev.t - prev.t) \div 100} :        \* 100 us
     \E vo \in {IF Offset THEN VelOff(Ev, dt) ELSE <<0, 0, 0>>} :
     \E v \in {[k \in V3 |-> Ev.ov[k] + vo[k]]} : \E x \in {PosI(Ev)} : \E vd \in {Ev.ovd + vo[3]} :
     \E inc \in {[k \in V3 |-> RoundDiv(Ev.oac[k] * dt, 1000)]} :
     LET r == Ev p == prev t == r.t
         rc == [k \in 1..5 |-> r.rc[k] - p.rc[k]]
         jump == \E k \in 1..5 : rc[k] # 0
         lost == \E k \in 1..5 : rc[k] > 1 \/ rc[k] < 0
         sh(k) == IF k < 3 THEN (IF rc[1] = 1 THEN r.rd[k] * 1000 ELSE 0) ELSE (IF rc[3] = 1 THEN r.rd[5] * 1000 ELSE 0)
         ps(k) == IF k < 3 THEN (IF rc[2] = 1 THEN r.rd[k + 2] * 100 ELSE 0) ELSE (IF rc[4] = 1 THEN r.rd[6] * 100 ELSE 0)
         v0 == [k \in V3 |-> T.v[k] + sh(k)]
         vpre == [k \in V3 |-> v0[k] + inc[k]]
         dp == [k \in V3 |-> RoundDiv(((v0[k] + vpre[k]) \div 10) * dt, 20000)]
         xpre == [k \in V3 |-> T.x[k] + ps(k) + dp[k]]
         vdpre == T.vd + sh(3) + inc[3]
         tv == (IF Offset THEN 400 ELSE 12) + (IF jump THEN 1500 ELSE 0)
         tx == (IF Offset THEN 20 ELSE 6) + (IF jump THEN 150 ELSE 0)
         a == [k \in V3 |-> T.a[k] + inc[k]]
         pp == [k \in V3 |-> T.p[k] + dp[k]]
         (* acceleration from the raw sample: 1e-5 m/s2; bias is per filter period *)
         fb == [k \in V3 |-> RoundDiv(r.idv[k] * 100, dt) - r.sab[k]]
         acc == Rot(r.oq, fb)
         (* rotation from the raw sample, 1e-7 rad *)
         rot == [k \in V3 |-> r.ida[k] - RoundDiv(r.sgb[k] * dt, 100)]
         h1 == Drop(Append(IF rc[5] # 0 THEN [k \in 1..Len(T.h) |-> [T.h[k] EXCEPT !.ok = FALSE]] ELSE T.h, [t |-> t, q |-> r.oq, a |-> a, p |-> pp, ok |-> TRUE]), r.td)
         full == T.go /\ r.iu /\ Len(T.h) > 0 /\ T.h[1].t <= r.td /\ h1 # <<>> /\ AbsI(h1[1].t - r.td) <= 600
         o == h1[1]
         ev == [k \in V3 |-> r.sv[k] - (vpre[k] - (a[k] - o.a[k]))]
         ex == [k \in V3 |-> r.spo[k] - (xpre[k] - (pp[k] - o.p[k]))]
         evd == r.sv[3] - (vdpre - (a[3] - o.a[3]))
         gv == Gain(PeriodMs, g.vel_Tau, 10000) gx == Gain(PeriodMs, g.pos_Tau, 10000)
         dv == [k \in V3 |-> v[k] - vpre[k]]
         dx == [k \in V3 |-> x[k] - xpre[k]]
         cv1 == [k \in V3 |-> IntegralPart(T.cv[k], ev[k], gv)]
         cx1 == [k \in V3 |-> IntegralPart(T.cp[k], ex[k], gx)]
         eq == IF full /\ o.ok THEN LET z == Diff(r.sq, o.q) IN (IF DotQ(r.sq, o.q) >= 0 THEN z ELSE [k \in V3 |-> -z[k]]) ELSE <<0, 0, 0>>
         (* attitude correction: half a sample per delay; eq is half the angle in 1/30000 *)
         delay == MaxI(r.t - r.td, dt * 100) \div 100
         (* the alternative vertical loop: correction = position error * gain + velocity error * 1.1 gain *)
         dvd == vd - vdpre
         byV == Mul(evd, (11 * gv) \div 10)
         on == full /\ T.eOk /\ ~lost
         e1 == T.e + (r.spo[3] - T.spo - ps(3)) * 10 - RoundDiv(((T.vA + vdpre - (a[3] - o.a[3]) - sh(3)) \div 20) * ((o.t - T.ot) \div 100), 1000)
         eobs == IF AbsI(dvd - byV) < 100000 THEN RoundDiv((dvd - byV) * 10000, MaxI(gx, 10)) ELSE RoundDiv((dvd - byV) \div 10, MaxI(gx, 10)) * 100000
     IN /\ Chk("unit attitude", AbsI(DotQ(r.oq, r.oq) - 30000) <= 8)
        (* acceleration and rotation come from the newest raw sample *)
        /\ (t > 3000000) => \A k \in V3 : Chk(<<"acceleration", k, acc, r.oac>>, Near(acc[k] + (IF k = 3 THEN 980665 ELSE 0), r.oac[k], 300 + Max3(r.oac) \div 2000 + Max3(fb) \div 4000))
        /\ (T.corrOk /\ rc[5] = 0) => \A k \in V3 : Chk(<<"rotation", k, r.dqo, rot, T.corr>>, Near(r.dqo[k], rot[k] + T.corr[k], 120 + Max3(r.ida) \div 1000))
        /\ (rc[5] = 0 /\ t > 3000000) => Chk(<<"attitude ahead of the step", r.dqp>>, Max3(r.dqp) <= 40 + Max3([k \in V3 |-> r.sgb[k] - p.sgb[k]]))
        (* between filter periods only the raw motion counts *)
        /\ (~r.iu /\ T.go) => /\ Chk(<<"velocity is integrated", dv>>, Max3(dv) <= tv)
                    /\ Chk(<<"position is integrated", dx>>, Max3(dx) <= tx)
                    /\ Chk(<<"vertical velocity is integrated", dvd>>, AbsI(dvd) <= tv)
        (* tracking *)
        /\ (full /\ ~lost) =>
             /\ Chk(<<"velocity tracking error", r.ote[2], ev>>, Norm2Ok(r.ote[2], [k \in V3 |-> RoundDiv(ev[k], 10)], (tv + 60) \div 10))
             /\ Chk(<<"position tracking error", r.ote[3], ex>>, Norm2Ok(r.ote[3], ex, tx + 40))
             /\ o.ok => Chk(<<"attitude tracking error", r.ote[1], eq>>, Norm2Ok(r.ote[1], [k \in V3 |-> (eq[k] * 20) \div 3], 30))
             /\ T.known => /\ \A k \in V3 : Chk(<<"velocity steered", k, dv, ev, gv, cv1, tv>>, Near(dv[k], Mul(ev[k], gv) + (cv1[k] \div 100), tv + AbsI(ev[k]) \div 400 + AbsI(dv[k]) \div 400))
                           /\ \A k \in V3 : Chk(<<"position steered", k, dx, ex, gx, cx1, tx>>, Near(dx[k], Mul(ex[k], gx) + (cx1[k] \div 100), tx + AbsI(ex[k]) \div 400 + AbsI(dx[k]) \div 400))
             /\ on => Chk(<<"vertical velocity steered", dvd, byV, e1, eobs>>, Near(dvd, byV + Mul(e1, gx), tv + (AbsI(evd) + AbsI(dvd) + AbsI(e1) \div 10) \div 400))
        /\ T' = [h |-> IF r.iu THEN h1 ELSE T.h, a |-> a, p |-> pp,
                 cv |-> IF ~full THEN T.cv ELSE IF T.known /\ ~lost THEN [k \in V3 |-> cv1[k] + (((dv[k] - Mul(ev[k], gv)) * 100 - cv1[k]) \div 64)] ELSE [k \in V3 |-> (dv[k] - Mul(ev[k], gv)) * 100],
                 cp |-> IF ~full THEN T.cp ELSE IF T.known /\ ~lost THEN [k \in V3 |-> cx1[k] + (((dx[k] - Mul(ex[k], gx)) * 100 - cx1[k]) \div 64)] ELSE [k \in V3 |-> (dx[k] - Mul(ex[k], gx)) * 100],
                 known |-> (T.known \/ full) /\ ~lost, e |-> IF ~full THEN 0 ELSE IF on THEN (IF jump THEN e1 ELSE e1 + ((eobs - e1) \div 8)) ELSE eobs, eOk |-> full /\ ~lost /\ (T.eOk \/ ~jump), vA |-> IF full THEN vdpre - (a[3] - o.a[3]) + dvd ELSE 0, spo |-> r.spo[3], ot |-> IF full THEN o.t ELSE 0, go |-> TRUE, v |-> v, x |-> x, vd |-> vd,
                 corr |-> IF r.iu THEN [k \in V3 |-> -((RoundDiv(eq[k] * dt * 100, MaxI(1, delay)) * 10) \div 3)] ELSE T.corr, corrOk |-> (IF r.iu THEN full /\ o.ok /\ t > 6000000 ELSE T.corrOk)]
        /\ prev' = r /\ UNCHANGED g
Next == New \/ Par \/ First \/ Step \/ Other
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
