----------------------------- MODULE WindTrace -----------------------------
(* Recorded flights: start, measurements and end of the wind estimate. *)
EXTENDS EkfIntake, Wind, Why, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, I, prev, T
vars == <<l, g, I, prev, T>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
(* m: recent airspeed messages; w: the estimate; off: it has been off since *)
T0 == [m |-> <<>>, w |-> NoWind(-1000000), off |-> 0]
Init == l = 1 /\ g = None /\ I = None /\ prev = None /\ T = T0
New == Is("new") /\ g' = Ev /\ I' = InNew(Ev) /\ prev' = None /\ T' = T0
Par == Is("par") /\ I' = InPar(I, Ev.n, Ev.v) /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n \in {"fusion_mode", "beta_avg_ft_us"} THEN Ev.v \div 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<prev, T>>
Call == Is("call") /\ UNCHANGED <<g, I, prev, T>>
Last6(q) == IF Len(q) > 16 THEN SubSeq(q, Len(q) - 15, Len(q)) ELSE q
RECURSIVE Watch(_, _, _, _)
Watch(W, d, k, S) ==
  IF k > Len(d) THEN W
  ELSE Watch(IF d[k][1] = "tas" /\ d[k][2] = S.tas.last THEN [W EXCEPT !.m = Last6(Append(@, d[k]))] ELSE W, d, k + 1, S)
Take(st, r) == Watch(T, r.d, 1, st.I.S)
Pre == Is("p") /\ prev = None /\ LET st == InStep(I, Ev.t, Ev.d, Unstarted) IN I' = st.I /\ T' = Take(st, Ev) /\ UNCHANGED <<g, prev>>
First == /\ Is("u") /\ prev = None
         /\ LET st == InStep(I, Ev.t, Ev.d, SNames) IN I' = st.I /\ T' = Take(st, Ev)
         /\ Chk("no wind at first", ToSet(Ev.cs) \cap {"wind", "fuse_aspd"} = {})
         /\ prev' = Ev /\ UNCHANGED g
Moved(p, r, n) == p.in[n]["x"] # r.in[n]["x"] /\ (\E k \in DOMAIN r.in[n].v : r.in[n].v[k] # 0)
Sq(x) == x * x
Syn(cs) == cs \cap {"gps", "opt_flow", "ev_pos", "ev_vel"} = {} /\ ~({"fuse_aspd", "fuse_beta"} \subseteq cs)
(* airspeed, 1e-2 m/s: velocity in 1e-3, wind in 1e-3 *)
Rel(v, w) == <<(v[1] - w[1]) \div 10, (v[2] - w[2]) \div 10, v[3] \div 10>>
Speed2(a) == Sq(a[1]) + Sq(a[2]) + Sq(a[3])
(* body components of an earth vector, quaternion in 1e-5 *)
Body(q0, a) ==
  LET q == [k \in 1..4 |-> q0[k] \div 10]
      M(x, y) == (q[x] * q[y]) \div 10000
  IN <<(a[1] * (10000 - 2 * (M(3, 3) + M(4, 4))) + a[2] * 2 * (M(2, 3) + M(1, 4)) + a[3] * 2 * (M(2, 4) - M(1, 3))) \div 10000,
       (a[1] * 2 * (M(2, 3) - M(1, 4)) + a[2] * (10000 - 2 * (M(2, 2) + M(4, 4))) + a[3] * 2 * (M(3, 4) + M(1, 2))) \div 10000>>
Step ==
  /\ Is("u") /\ prev # None
  /\ \E st \in {InStep(I, Ev.t, Ev.d, SNames)} : \E W \in {Take(st, Ev)} :
     \E cs \in {ToSet(Ev.cs)} : \E was \in {ToSet(prev.cs)} :
     LET r == Ev p == prev t == r.t nf == ToSet(r.nf) fs == ToSet(r.fs)
         ready == st.ready["tas"]
         ks == {k \in 1..Len(W.m) : W.m[k][2] - DelayOf(g, "tas") - 5000 = st.stamp["tas"]}
         tas == W.m[CHOOSE k \in ks : TRUE][3]          \* 1e-3 m/s
         tried == Moved(p, r, "tas") btried == Moved(p, r, "beta") dtried == Moved(p, r, "drag")
         bad == fs \cap {"bad_airspeed", "bad_sideslip"} # {}
         C(y) == [syn |-> Syn(was), tas |-> ready, air |-> "in_air" \in cs, beta |-> "fuse_beta" \in cs, drag |-> Bit(g.fusion_mode, 32), yaw |-> y,
                  tasOk |-> tried /\ "reject_airspeed" \notin nf /\ "bad_airspeed" \notin fs, betaOk |-> btried /\ "reject_sideslip" \notin nf /\ "bad_sideslip" \notin fs,
                  every |-> g.beta_avg_ft_us]
         ys == IF ~Bit(g.fusion_mode, 32) THEN {TRUE} ELSE IF "gps" \in was /\ t > 20000000 /\ cs \cap {"mag_hdg", "mag_3D"} # {} /\ g.mag_fusion_type = 0 THEN {TRUE} ELSE {TRUE, FALSE}
         seen == [on |-> "wind" \in cs, aspd |-> "fuse_aspd" \in cs]
         fit == {y \in ys : LET n == WindStep(W.w, C(y), t) IN n.on = seen.on /\ n.aspd = seen.aspd}
     IN /\ I' = st.I
        /\ Chk(<<"life of the wind", W.w, C(TRUE), seen, t>>, fit # {})
        /\ LET y == TRUE \in fit
               c == C(y) n == WindStep(W.w, c, t) s == Start(W.w, c, t)
               v == p.vp a == Rel(v, p.w) sp2 == Speed2(a)
               stays == "wind" \in was /\ ~Ends(W.w, c, t)
               jumped == p.rc[1] # r.rc[1] \/ p.rc[5] # r.rc[5]
               b == Body(r.q, a)
           IN (* samples are used exactly in flight with a real position *)
              /\ Chk("airspeed in flight only", tried => WantsTas(c))
              /\ (WantsTas(c) /\ ~jumped /\ (IF stays THEN sp2 > Sq(160) ELSE (ks # {} /\ tas > 1600)) /\ ~bad) => Chk(<<"airspeed used", s, sp2>>, tried)
              /\ (tried /\ stays /\ ~jumped /\ sp2 < Sq(50)) => Chk("not at rest in the air", FALSE)
              /\ Chk("sideslip when enabled in flight", btried => WantsBeta(Air(W.w, c, t), c, t))
              /\ (WantsBeta(Air(W.w, c, t), c, t) /\ stays /\ ~jumped /\ ~bad /\ ~tried /\ sp2 > Sq(760)) => Chk("sideslip used", btried)
              /\ (btried /\ stays /\ ~jumped /\ ~tried /\ sp2 < Sq(640)) => Chk("no sideslip when slow", FALSE)
              /\ Chk("drag in flight only", dtried => (WantsDrag(c) /\ Beta(Air(W.w, c, t), c, t).on))
              (* what they measure *)
              /\ (tried /\ stays /\ ks # {} /\ ~jumped /\ ~bad /\ sp2 > Sq(200)) =>
                   Chk(<<"airspeed innovation", r.in.tas.i, a, tas>>, AbsI(sp2 - Sq((tas + r.in.tas.i[1] \div 10) \div 10)) <= 100 * (tas \div 10) + 2500)
              /\ (btried /\ stays /\ ~tried /\ ~jumped /\ ~bad /\ AbsI(b[1]) > 300) =>
                   Chk(<<"sideslip innovation", r.in.beta.i, a, b>>, AbsI(r.in.beta.i[1] * (AbsI(b[1]) \div 10) - (IF b[1] < 0 THEN -1 ELSE 1) * b[2] * 1000) <= 500 * (AbsI(b[1]) \div 10) + 20000)
              (* a new estimate *)
              /\ (s = "tas" /\ ks # {} /\ tas > 3000 /\ tried /\ ~jumped /\ ~bad) =>
                   /\ Chk(<<"wind from the airspeed", r.in.tas.i, v, tas>>, AbsI(r.in.tas.i[1]) <= 1000 + ((Sq(v[3]) \div tas) * 13) \div 2)
                   /\ ~btried => Chk(<<"uncertain sideways", r.wv>>, (r.wv[1] + r.wv[2]) \div 100 >= 3 * Sq(tas \div 1000))
              /\ (s = "beta" /\ btried /\ ~jumped /\ ~bad) =>
                   \E b0 \in {Body(r.q, Rel(v, <<0, 0>>))} : (AbsI(b0[1]) > 300) => Chk(<<"no wind assumed", r.in.beta.i, b0>>, AbsI(r.in.beta.i[1] * (AbsI(b0[1]) \div 10) - (IF b0[1] < 0 THEN -1 ELSE 1) * b0[2] * 1000) <= 500 * (AbsI(b0[1]) \div 10) + 20000)
              /\ (s = "drag") => Chk(<<"no wind assumed", r.w, r.wv>>, r.w = <<0, 0>> /\ r.wv[1] = r.wv[2] /\ AbsI(r.wv[1] - g.initial_wind_uncertainty * 10) <= 20)
              (* no estimate *)
              /\ ("wind" \notin was /\ "wind" \notin cs) => Chk(<<"wind frozen", p.w, r.w, r.wv>>, r.w = p.w /\ (r.wv = <<0, 0>> \/ jumped))
              /\ (stays /\ ~bad /\ ~tried /\ ~btried /\ ~dtried /\ ~jumped) => Chk(<<"wind uncertainty grows", p.wv, r.wv>>, TRUE)
              /\ T' = [W EXCEPT !.w = n]
        /\ prev' = Ev /\ UNCHANGED g
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
