--------------------------- MODULE YawSourceTrace ---------------------------
(* Recorded flights: use of the GNSS heading, and one source of yaw at a time. *)
EXTENDS EkfIntake, YawSource, Why, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, I, prev, Y, W
vars == <<l, g, I, prev, Y, W>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
Turn(x) == LET z == ((x % 62832) + 62832) % 62832 IN IF z > 31416 THEN z - 62832 ELSE z
(* W: messages taken and not yet seen at the horizon; stamp of the last one seen *)
W0 == [m |-> <<>>, stamp |-> -1000000]
Init == l = 1 /\ g = None /\ I = None /\ prev = None /\ Y = {Off} /\ W = W0
New == Is("new") /\ g' = Ev /\ I' = InNew(Ev) /\ prev' = None /\ Y' = {Off} /\ W' = W0
Raw == {"fusion_mode", "mag_fusion_type"}
Par == Is("par") /\ I' = InPar(I, Ev.n, Ev.v) /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n \in Raw THEN Ev.v \div 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<prev, Y, W>>
Call == Is("call") /\ UNCHANGED <<g, I, prev, Y, W>>
Last(q) == IF Len(q) > 20 THEN SubSeq(q, Len(q) - 19, Len(q)) ELSE q
RECURSIVE Watch(_, _, _)
Watch(q, d, last) == IF d = <<>> THEN q ELSE Watch(IF Head(d)[1] = "gps" /\ Head(d)[2] = last THEN Last(Append(q, Head(d))) ELSE q, Tail(d), last)
Pre == Is("p") /\ prev = None /\ LET st == InStep(I, Ev.t, Ev.d, Unstarted) IN I' = st.I /\ W' = [W EXCEPT !.m = Watch(@, Ev.d, st.I.S.gps.last)] /\ UNCHANGED <<g, prev, Y>>
First == /\ Is("u") /\ prev = None
         /\ LET st == InStep(I, Ev.t, Ev.d, SNames \ {"flow"}) IN I' = st.I /\ W' = [m |-> Watch(W.m, Ev.d, st.I.S.gps.last), stamp |-> IF st.ready["gps"] THEN st.stamp["gps"] ELSE W.stamp]
         /\ Chk("no GNSS heading at the start", "gps_yaw" \notin ToSet(Ev.cs))
         /\ prev' = Ev /\ UNCHANGED <<g, Y>>
Moved(p, r, n, x) == p.in[n][x] # r.in[n][x]
Flat(q) == 100000 - (2 * ((q[2] \div 10) * (q[2] \div 10) + (q[3] \div 10) * (q[3] \div 10))) \div 1000   \* cosine of the tilt, 1e-5
Sources(cs) == (IF "gps_yaw" \in cs THEN 1 ELSE 0) + (IF "ev_yaw" \in cs THEN 1 ELSE 0) + (IF cs \cap {"mag_hdg", "mag_3D"} # {} THEN 1 ELSE 0)
Step ==
  /\ Is("u") /\ prev # None
  /\ \E st \in {InStep(I, Ev.t, Ev.d, SNames \ {"flow"})} : \E q \in {Watch(W.m, Ev.d, st.I.S.gps.last)} : \E cs \in {ToSet(Ev.cs)} : \E was \in {ToSet(prev.cs)} :
     LET r == Ev p == prev t == r.t nf == ToSet(r.nf) we == ToSet(r.we)
         ready == st.ready["gps"]
         stamp == IF ready THEN st.stamp["gps"] ELSE W.stamp
         ks == {k \in 1..Len(q) : q[k][2] - DelayOf(g, "gps") - 5000 = stamp}
         m == q[CHOOSE k \in ks : TRUE]
         known == ready /\ ks # {}
         on == "gps_yaw" \in was now == "gps_yaw" \in cs
         finite == IF ks = {} THEN BOOLEAN ELSE {m[4]}
         tried == on /\ known /\ m[4] /\ Moved(p, r, "hdg", "x")
         passes == IF ~tried THEN {FALSE} ELSE IF "ev_yaw" \in cs THEN BOOLEAN ELSE {"reject_yaw" \notin nf \/ "in_air" \notin cs}
         stop == we \cap {"gps_quality_poor", "gps_data_stopped", "gps_data_stopped_using_alternate"} # {}
         C(h, pass) == [sel |-> Bit(g.fusion_mode, 128), ready |-> ready, heading |-> h, tilt |-> "tilt_align" \in cs, pass |-> pass, age |-> st.h - stamp, stop |-> stop]
         Next0 == {Gnss(y, C(h, a), t) : y \in Y, h \in finite, a \in passes}
         fit == {y \in Next0 : y.on = now}
         start == now /\ ~on
         err == IF known THEN m[6].dy ELSE 0          \* error of the message
     IN /\ I' = st.I
        /\ Chk(<<"GNSS heading", Y, passes, finite, now, t>>, fit # {})
        /\ Chk(<<"one source of yaw", r.cs>>, Sources(cs) <= 1)
        /\ now => Chk("yaw aligned", {"yaw_align", "tilt_align"} \subseteq cs)
        /\ start => Chk(<<"yaw taken from GNSS", r.ye, m>>, (r.rc[5] - p.rc[5] + 256) % 256 >= 1 /\ AbsI(Turn(r.ye - err)) <= 300)
        /\ start => Chk("mag ends", cs \cap {"mag_hdg", "mag_3D", "mag_dec", "ev_yaw"} = {})
        /\ (tried /\ "reject_yaw" \notin nf /\ Flat(p.q) > 98500 /\ p.rc[5] = r.rc[5] /\ AbsI(r.rda[1]) + AbsI(r.rda[2]) + AbsI(r.rda[3]) < 500)
           => Chk(<<"difference from the measured heading", r.in.hdg, p.ye, m>>, AbsI(Turn(r.in.hdg.i[1] - (p.ye - err))) <= 350 /\ r.in.hdg.v[1] >= 99)
        /\ (ready /\ on /\ now /\ known /\ m[4] /\ Flat(p.q) > 70000 /\ AbsI(AbsI(Turn(r.ty + r.ye + m[6].yo)) - 15708) > 400) => Chk("heading used", Moved(p, r, "hdg", "x") \/ "bad_hdg" \in ToSet(r.fs))
        /\ (on /\ now /\ ~(ready /\ m[4])) => Chk("nothing else used", ~Moved(p, r, "hdg", "x"))
        /\ Y' = fit /\ W' = [m |-> q, stamp |-> stamp]
  /\ prev' = Ev /\ UNCHANGED g
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
