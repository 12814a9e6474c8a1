----------------------------- MODULE AccelTrace ----------------------------
(* Recorded flights with shaken, clipped and biased accelerometers. *)
EXTENDS Accel, Why, Sequences, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, prev, T
vars == <<l, g, prev, T>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Bit(x, b) == (x \div b) % 2 = 1
Never == -2000000
Blank == [t |-> Never, up |-> {FALSE}, over |-> {FALSE}]
(* pos, vel: last vertical innovations; n, on, [lo, hi] possible times of the last evidence; w, a: envelopes; clr: last moment without a bias fault; free: calls since the last step *)
T0 == [pos |-> Blank, vel |-> Blank, n |-> 0, on |-> FALSE, lo |-> Never, hi |-> Never, w |-> 0, a |-> 0, clr |-> 0, free |-> FALSE]
Init == l = 1 /\ g = None /\ prev = None /\ T = T0
New == Is("new") /\ g' = Ev /\ prev' = None /\ T' = T0
Par == Is("par") /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n = "fusion_mode" THEN Ev.v \div 1000 ELSE IF Ev.n = "acc_bias_lim" THEN Ev.v * 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<prev, T>>
Call == Is("call") /\ T' = [T EXCEPT !.free = @ \/ Ev.n \in {"resetAccelBias", "resetImuBias"}] /\ UNCHANGED <<g, prev>>
Pre == Is("p") /\ prev = None /\ UNCHANGED <<g, prev, T>>
Cap(x) == MinI(AbsI(x), 200000000)
First == Is("u") /\ prev = None /\ prev' = Ev /\ T' = [T EXCEPT !.w = Cap(Ev.wm), !.a = Cap(Ev.am), !.clr = Ev.t] /\ UNCHANGED g
Three(b, m) == IF m THEN {b} ELSE {TRUE, FALSE}
(* what an innovation says: i, and its normalised square n (1e-3), against the limit (1e-3) *)
Says(i, n, t) ==
  LET sq == (g.vert_innov_test_lim * g.vert_innov_test_lim) \div 1000
      m == (sq \div 200) + 2
  IN [t |-> t, up |-> Three(i > 0, AbsI(i) > 1), over |-> IF i > 1 THEN Three(n > sq, AbsI(n - sq) > m) ELSE IF i < -1 THEN {FALSE} ELSE {TRUE, FALSE}]
X(p, r, s, d, k) == p.in[s][d] # r.in[s][d] /\ r.in[s].v[k] # 0
VelSrc(p, r) == {s \in {"gps", "ev"} : X(p, r, s, "x", 3) /\ (s = "ev" => (p.in.ev.i[3] # r.in.ev.i[3] \/ p.in.ev.v[3] # r.in.ev.v[3]))}
PosSrc(p, r) == {s \in {"gps", "ev"} : X(p, r, s, "xv", 6)} \cup {s \in {"baro", "rng"} : X(p, r, s, "x", 1)}
K(s, m) == IF s \in {"gps", "ev"} THEN m ELSE 1
Still(p, r) == \A s \in DOMAIN r.in : (p.in[s]["x"] = r.in[s]["x"] /\ (s \in {"gps", "ev"} => (p.in[s]["xv"] = r.in[s]["xv"] /\ (s = "gps" => p.in[s]["xp"] = r.in[s]["xp"]))))
(* third row of the rotation from body to earth, 1e-4, quaternion 1e-5 *)
Third(q0) ==
  LET q == [k \in 1..4 |-> q0[k] \div 10]
      M(x, y) == (q[x] * q[y]) \div 10000
  IN <<2 * (M(2, 4) - M(1, 3)), 2 * (M(3, 4) + M(1, 2)), 10000 - 2 * (M(2, 2) + M(3, 3))>>
Level(f, lim) == IF f > lim + (lim \div 100) + 1 THEN {TRUE} ELSE IF f < lim - (lim \div 100) - 1 THEN {FALSE} ELSE {TRUE, FALSE}
Decay(f) == f - ((f * 10) \div MaxI(10, g.acc_bias_learn_tc))
OrSet(A, B) == {a \/ b : a \in A, b \in B}
Step ==
  /\ Is("u") /\ prev # None
  /\ \E cs \in {ToSet(Ev.cs)} : \E was \in {ToSet(prev.cs)} : \E fs \in {ToSet(Ev.fs)} : \E wfs \in {ToSet(prev.fs)} : \E nf \in {ToSet(Ev.nf)} : \E pnf \in {ToSet(prev.nf)} :
     \E vs \in {VelSrc(prev, Ev)} : \E ps \in {PosSrc(prev, Ev)} :
     LET r == Ev p == prev t == r.t
         clip == TRUE \in ToSet(r.hcl)
         n == Clips(T.n, clip)
         posF == T.pos.t + 1000000 > t
         velF == T.vel.t + 1000000 > t
         same == ("gps_hgt" \in was /\ "gps" \in was) \/ ("ev_hgt" \in was /\ "ev_vel" \in was)
         O(fr, x) == {[fresh |-> fr, up |-> u, over |-> o] : u \in x.up, o \in x.over}
         found == {Evidence(n, a, b, same) : a \in O(posF, T.pos), b \in O(velF, T.vel)}
         seen == "bad_acc_vertical" \in fs
         lo == IF found = {TRUE} THEN t ELSE T.lo
         hi == IF TRUE \in found THEN t ELSE T.hi
         may == IF T.on THEN {t - lo < Probation, t - hi < Probation} ELSE found
         (* learning *)
         wf == MaxI(Cap(r.wm), Decay(T.w))
         af == MaxI(Cap(r.am), Decay(T.a))
         violent == OrSet(Level(wf, g.acc_bias_learn_gyr_lim * 1000), Level(af, g.acc_bias_learn_acc_lim * 100))
         all == {AllBlocked(Bit(g.fusion_mode, 4), v, "bad_acc_vertical" \in wfs) : v \in violent}
         R == Third(r.q) R0 == Third(p.q)
         Al(k) == LET c == AbsI(R[k]) d == AbsI(R0[k]) IN IF MinI(c, d) > 8100 THEN {TRUE} ELSE IF MaxI(c, d) < 7900 THEN {FALSE} ELSE {TRUE, FALSE}
         Blk(k) == {Blocked(x, y, "in_air" \in cs, r.hcl[k]) : x \in all, y \in Al(k)}
         wiped == "invalid_accel_bias_cov_reset" \in ToSet(r.we)
         lim == g.acc_bias_lim                            \* 1e-6 m/s2, so 1e-8 m/s in a period of 10 ms
         Clamp(b) == IF b > lim THEN lim ELSE IF b < -lim THEN -lim ELSE b
         quiet == Still(p, r) /\ p.rc = r.rc
     IN /\ Chk(<<"bad vertical acceleration", [seen |-> seen, was |-> T.on, found |-> found, pos |-> T.pos, vel |-> T.vel, n |-> n, same |-> same, lo |-> lo, hi |-> hi, t |-> t]>>, seen \in may)
        /\ Chk(<<"clipping", r.hcl, fs>>, ("bad_acc_clipping" \in fs) = clip)
        (* trusted over the accelerometer while it is bad *)
        /\ (seen /\ vs # {}) => Chk("vertical velocity used", "reject_ver_vel" \notin nf)
        /\ (seen /\ ps # {}) => Chk("vertical position used", "reject_ver_pos" \notin nf)
        (* who may learn *)
        /\ ~T.free => \A k \in 1..3 :
             LET b == Blk(k) IN
             /\ Chk(<<"learning", k, b, r.abz, [w |-> wf, a |-> af, R |-> R[k], clip |-> r.hcl, bad |-> wfs]>>, \/ r.abz[k] \in b \/ wiped \/ r.abv[k] = 5000)
             /\ (b = {TRUE}) => /\ Chk(<<"frozen variance", k, p.abv, r.abv>>, r.abv[k] = p.abv[k])
                                /\ Chk(<<"frozen bias", k, p.abs, r.abs>>, AbsI(r.abs[k] - Clamp(p.abs[k])) <= 2 + (lim \div 100000))
             /\ (b = {FALSE} /\ p.abz[k] /\ quiet) => Chk(<<"uncertainty taken up again", k, p.abv, r.abv>>, \/ AbsI(r.abv[k] - p.abv[k]) <= 2 + (p.abv[k] \div 100) \/ r.abv[k] = 5000 \/ wiped \/ \E j \in 1..3 : r.abv[k] >= (r.abv[j] \div 100) - 2 /\ r.abv[k] <= (r.abv[j] \div 100) + 2)
             /\ (b = {FALSE}) => Chk(<<"variance in its range", k, r.abv>>, r.abv[k] >= 4990 /\ r.abv[k] <= 9640000)
             /\ quiet => Chk(<<"bias within its limit", k, p.abs, r.abs>>, AbsI(r.abs[k] - Clamp(p.abs[k])) <= 2 + (lim \div 100000))
        (* a bias fault *)
        /\ (wiped => Chk(<<"covariance reset", t, T.clr>>, t - T.clr >= 7000000))
        /\ Chk(<<"covariance reset ends the fault">>, wiped => "bad_acc_bias" \notin fs)
        /\ LET Near(q, b) == LET z == Third(q) IN AbsI((z[1] * (b[1] \div 100) + z[2] * (b[2] \div 100) + z[3] * (b[3] \div 100)) \div 100)
               f == ((lim * 9) \div 10)
           IN (~(TRUE \in ToSet(r.abz)) /\ ~T.free /\ Near(r.q, r.abs) < (f * 8) \div 10 /\ Near(p.q, p.abs) < (f * 8) \div 10) => Chk(<<"no bias fault for a small bias", r.abs, lim>>, "bad_acc_bias" \notin fs)
        (* and nobody trusts the integral *)
        /\ (quiet /\ ~T.free /\ (clip \/ "bad_acc_vertical" \in wfs) /\ p.vva[1] + p.vva[2] + p.vva[3] < 300000) =>
             LET m == IF "bad_acc_vertical" \in wfs THEN 3 ELSE Cardinality({k \in 1..3 : r.hcl[k]}) IN
             Chk(<<"velocity uncertain", m, p.vva, r.vva>>, r.vva[1] + r.vva[2] + r.vva[3] - p.vva[1] - p.vva[2] - p.vva[3] >= 1600 * m)
        /\ T' = [pos |-> IF ps = {} THEN T.pos ELSE LET s == CHOOSE s \in ps : TRUE IN Says(r.in[s].i[K(s, 6)], r.in[s].n[K(s, 6)], t),
                 vel |-> IF vs = {} THEN T.vel ELSE LET s == IF "ev" \in vs THEN "ev" ELSE "gps" IN Says(r.in[s].i[3], r.in[s].n[3], t),
                 n |-> n, on |-> seen, lo |-> lo, hi |-> hi, w |-> wf, a |-> af,
                 clr |-> IF "bad_acc_bias" \in fs THEN T.clr ELSE t, free |-> FALSE]
        /\ prev' = r /\ UNCHANGED g
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
