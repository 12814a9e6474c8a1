--------------------------- MODULE DeadReckonTrace ---------------------------
(* Recorded flights: dead reckoning, validity of local and global position, synthetic position. *)
EXTENDS Integers, Sequences, DeadReckon, Why, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, prev, T
vars == <<l, g, prev, T>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
Ago == -1000000         \* clocks start a second before the first sample
(* earliest and latest instant of the last accepted measurement; aid: exact, from the reports; syn: last step with a synthetic position; fuse: last synthetic fusion; since: synthetic since; held: position held *)
T0 == [vp |-> <<Ago, Ago>>, of |-> <<Ago, Ago>>, ar |-> <<Ago, Ago>>, be |-> <<Ago, Ago>>, aid |-> <<Never, Never>>, syn |-> Ago, fuse |-> Ago, since |-> 0, held |-> <<0, 0>>, ever |-> FALSE, calm |-> 0]
Init == l = 1 /\ g = None /\ prev = None /\ T = T0
New == Is("new") /\ g' = Ev /\ prev' = None /\ T' = T0
Par == Is("par") /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n \in {"no_aid_timeout_max", "valid_timeout_max", "fusion_mode"} THEN Ev.v \div 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<prev, T>>
Call == Is("call") /\ UNCHANGED <<g, prev, T>>
Pre == Is("p") /\ prev = None /\ UNCHANGED <<g, prev, T>>
Sources(cs) == cs \cap {"gps", "opt_flow", "ev_pos", "ev_vel"}
First == /\ Is("u") /\ prev = None
         /\ Chk("lost before any aiding", Ev.dr /\ ~Ev.lpv /\ ~Ev.gpv)
         /\ T' = [T0 EXCEPT !.vp = <<Ev.t, Ev.t>>, !.of = <<Ev.t, Ev.t>>, !.ar = <<Ev.t, Ev.t>>, !.be = <<Ev.t, Ev.t>>, !.syn = Ev.t, !.fuse = Ev.t, !.since = Ev.t, !.held = <<Ev.vp[4], Ev.vp[5]>>]
         /\ prev' = Ev /\ UNCHANGED g
Moved(p, r, n, x) == p.in[n][x] # r.in[n][x] /\ (\E k \in DOMAIN r.in[n].v : r.in[n].v[k] # 0)
(* a measurement that surely / possibly was accepted at t *)
Take(x, sure, maybe, t) == IF sure THEN <<t, t>> ELSE IF maybe THEN <<x[1], t>> ELSE x
Step ==
  /\ Is("u") /\ prev # None
  /\ \E cs \in {ToSet(Ev.cs)} : \E was \in {ToSet(prev.cs)} : \E nf \in {ToSet(Ev.nf)} :
     LET r == Ev p == prev t == r.t ie == ToSet(r.ie) we == ToSet(r.we)
         told == we \cap {"gps_fusion_timout"} # {} \/ "emergency_yaw_reset_mag_stopped" \in we
         syn == Synthetic(Sources(cs), {"fuse_aspd", "fuse_beta"} \subseteq cs)
         tries == (IF Moved(p, r, "gps", "x") /\ "gps" \in cs \cup was THEN {"gps"} ELSE {}) \cup (IF Moved(p, r, "ev", "x") /\ cs \cap {"ev_pos", "ev_vel"} # {} THEN {"ev"} ELSE {})
                  \cup (IF Moved(p, r, "aux", "x") /\ Sources(cs) # {} THEN {"aux"} ELSE {})
         posTry == tries \cap {"gps"} # {} \/ ("ev" \in tries /\ "ev_pos" \in cs)
         velTry == tries \cap {"gps", "aux"} # {} \/ ("ev" \in tries /\ "ev_vel" \in cs)
         okPos == posTry /\ "reject_hor_pos" \notin nf
         okVel == velTry /\ "reject_hor_vel" \notin nf
         zeroed == Moved(p, r, "gps", "x") \/ Moved(p, r, "ev", "x")
         vp == Take(T.vp, (Cardinality(tries) = 1 /\ (okPos \/ okVel)) \/ told, (Cardinality(tries) > 1) \/ okPos \/ okVel \/ syn \/ p.rc[1] # r.rc[1], t)
         flowTry == Moved(p, r, "flow", "x") /\ "opt_flow" \in cs
         of == Take(T.of, ("opt_flow" \in cs \ was) \/ (flowTry /\ nf \cap {"reject_optflow_X", "reject_optflow_Y"} = {} /\ r.in.flow.v[1] # 0), told \/ flowTry, t)
         ar == Take(T.ar, Moved(p, r, "tas", "x") /\ "reject_airspeed" \notin nf /\ "fuse_aspd" \in cs, Moved(p, r, "tas", "x") \/ "wind" \in cs \ was, t)
         be == Take(T.be, Moved(p, r, "beta", "x") /\ "reject_sideslip" \notin nf /\ "wind" \in was, Moved(p, r, "beta", "x") \/ "wind" \in cs \ was, t)
         wait == g.no_aid_timeout_max
         C(k) == [vp |-> cs \cap {"gps", "ev_pos", "ev_vel"} # {}, vpLast |-> vp[k], of |-> "opt_flow" \in cs, ofLast |-> of[k], wind |-> "wind" \in cs, arLast |-> ar[k], beLast |-> be[k]]
         drifts == {~Constrained(C(1), wait, t), ~Constrained(C(2), wait, t)}
         aid == IF r.dr THEN T.aid ELSE <<t - wait, t - wait>>
         begin == syn /\ t - T.syn > 600000
         fused == Moved(p, r, "gps", "xp")
         np == (r.rc[2] - p.rc[2] + 256) % 256 nv == (r.rc[1] - p.rc[1] + 256) % 256
         calm == IF AbsI(r.tv3[1]) + AbsI(r.tv3[2]) > 200 \/ AbsI(r.tv3[3]) > 3000 THEN t ELSE T.calm
     IN /\ Chk(<<"dead reckoning", T, C(1), C(2), r.dr, t>>, r.dr \in drifts)
        /\ Chk(<<"local position valid", aid, syn, r.lpv, t>>, r.lpv = LocalValid(Expired(aid[1], g.valid_timeout_max, t), syn))
        /\ Chk("global position valid", r.gpv <=> (r.lpv /\ r.ov))
        (* the synthetic position *)
        /\ begin => /\ Chk("new start at the last position", np >= 1 /\ nv >= 1 /\ {"reset_vel_to_zero", "reset_pos_to_last_known"} \subseteq ie)
                    /\ Chk("announced", "stopping_navigation" \in we \/ ~T.ever)
                    /\ Chk(<<"stands still", r.vp>>, AbsI(r.vp[1]) <= 200 /\ AbsI(r.vp[2]) <= 200)
                    /\ ("in_air" \in cs) => Chk(<<"where it was", p.vp, r.vp>>, AbsI(r.vp[4] - p.vp[4]) <= 700 /\ AbsI(r.vp[5] - p.vp[5]) <= 700)
        /\ (~begin /\ syn) => Chk("no announcement", "stopping_navigation" \notin we \/ T.syn < t - 350000)
        /\ (~syn) => Chk("navigation goes on", "stopping_navigation" \notin we)
        /\ (syn /\ t - T.since > 700000) => Chk(<<"position held", T.fuse, t>>, fused \/ t - T.fuse <= 330000)
        /\ (syn /\ t - T.since > 20000000 /\ t - calm > 15000000) => Chk(<<"bounded", r.vp, r.te>>, AbsI(r.vp[1]) <= 30000 /\ AbsI(r.vp[2]) <= 30000)
        /\ T' = [vp |-> vp, of |-> of, ar |-> ar, be |-> be, aid |-> aid, syn |-> IF syn THEN t ELSE T.syn, fuse |-> IF fused THEN t ELSE T.fuse,
                 since |-> IF syn /\ T.syn >= p.t THEN T.since ELSE t, held |-> T.held, ever |-> (T.ever \/ syn), calm |-> calm]
  /\ prev' = Ev /\ UNCHANGED g
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
