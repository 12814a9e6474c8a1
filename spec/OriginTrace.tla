----------------------------- MODULE OriginTrace -----------------------------
(* Recorded flights: where the origin is set, that it stays, and what a request for another one does. *)
EXTENDS Origin, Why, Sequences, Json, IOUtils
CONSTANTS Settle, Slack
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, prev, map, watch, req
vars == <<l, prev, map, watch, req>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
AbsI(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == AbsI(a - b) <= tol
None == [none |-> 0]
NoWatch == [on |-> FALSE, t |-> 0, e |-> <<0, 0, 0>>]
Init == l = 1 /\ prev = None /\ map = FALSE /\ watch = NoWatch /\ req = <<0, 0>>
New == Is("new") /\ prev' = None /\ map' = FALSE /\ watch' = NoWatch /\ req' = <<0, 0>>
Par == Is("par") /\ UNCHANGED <<prev, map, watch, req>>
Aiding(r) == LET cs == ToSet(r.cs) IN cs \cap {"gps", "opt_flow", "ev_pos", "ev_vel"} # {} \/ {"fuse_aspd", "fuse_beta"} \subseteq cs
Org(r) == <<r.ola, r.olo, r.oal, r.ot>>
Gps(d) == SelectSeq(d, LAMBDA m : m[1] = "gps")
(* rounding of positions and of the projection *)
Tol(m) == 60 + (AbsI(m.sp[1]) + AbsI(m.sp[2])) \div 1000
(* the message that set the origin *)
SetOK(p, r) ==
  LET G == Gps(r.d) K == {k \in 1..Len(G) : G[k][6].ov}
  IN /\ Chk("set by a message", K # {})
     /\ LET m == G[CHOOSE k \in K : \A j \in K : k <= j][6]
            O == [map |-> map, ned |-> FALSE, o |-> 0]
            aid == IF p = None THEN FALSE ELSE Aiding(p)
        IN /\ Chk("needs a 3D fix", m.fix > 2) /\ Chk("needs a running filter", p # None)
           /\ Chk(<<"altitude", r.oal, m.alt, m.sp[3]>>, Near(r.oal, AutoAlt(m.alt, m.sp[3]), 4))
           /\ map => Chk(<<"requested origin kept", req>>, Near(r.ola, req[1], 2) /\ Near(r.olo, req[2], 2))
           /\ ~map => Chk(<<"horizontal", m.px, m.py, m.sp, aid>>, LET N == AutoSet(O, m.px, m.sp[1], aid) E == AutoSet(O, m.py, m.sp[2], aid) IN Near(N.o, 0, Tol(m)) /\ Near(E.o, 0, Tol(m)))   \* both relative to the origin that was set
           /\ Chk("time", r.ot = m.ti)
           /\ Chk("event", "gps_checks_passed" \in ToSet(r.ie))
Asked(c) == \E k \in 1..Len(c) : c[k][1] = "origin"
Err(r) == <<r.gl[1] - r.tp3[1], r.gl[2] - r.tp3[2], (r.gl[3] - r.base) + r.tp3[3]>>
Step == /\ Is("u")
        /\ LET r == Ev IN
           IF r.ov /\ (prev = None \/ ~prev.ov) THEN SetOK(prev, r)
           ELSE IF prev # None /\ prev.ov THEN Chk("origin valid for good", r.ov) /\ Chk(<<"origin moved", Org(prev), Org(r)>>, Org(r) = Org(prev)) /\ Chk("announced twice", "gps_checks_passed" \notin ToSet(r.ie))
           ELSE Chk("not announced", "gps_checks_passed" \notin ToSet(r.ie))
        /\ Chk(<<"after the request", watch, Err(Ev)>>, (watch.on /\ Ev.t <= watch.t + Settle) => \A k \in (IF "gps" \in ToSet(Ev.cs) /\ AbsI(Ev.ye) < 3000 THEN 1..3 ELSE {3}) : AbsI(Err(Ev)[k]) <= AbsI(watch.e[k]) + Slack)
        /\ watch' = IF watch.on /\ Ev.t > watch.t + Settle THEN NoWatch ELSE watch
        /\ map' = (map \/ Ev.ov)
        /\ req' = IF Ev.ov THEN <<Ev.ola, Ev.olo>> ELSE req
        /\ prev' = Ev
Call == /\ Is("call")
        /\ IF Ev.n # "origin" THEN (Ev.n = "init" => Chk("restart", ~Ev.ov)) /\ UNCHANGED <<map, req>> /\ watch' = (IF Ev.n = "init" THEN NoWatch ELSE watch) /\ prev' = (IF prev = None THEN None ELSE Ev @@ prev)
           ELSE LET r == Ev p == prev a == Ev.a
                    aid == p # None /\ map /\ Aiding(r) IN
                /\ Chk("accepted", r.ret)
                /\ Chk(<<"as requested", a, Org(r)>>, r.ov => Near(r.ola, a[2], 1) /\ Near(r.olo, a[3], 1) /\ Near(r.oal, a[4], 1))
                /\ p # None =>
                     /\ Chk("validity", r.ov = p.ov)
                     /\ IF aid THEN /\ Chk(<<"same place", p.gl, r.gl>>, p.ov => \A k \in 1..3 : Near(p.gl[k], r.gl[k], 30 + (AbsI(r.vp[4]) + AbsI(r.vp[5])) \div 2000))
                                    /\ Chk("counted", r.rc[2] = (p.rc[2] + 1) % 256 /\ r.rc[4] = (p.rc[4] + 1) % 256 /\ r.rc[1] = p.rc[1] /\ r.rc[3] = p.rc[3] /\ r.rc[5] = p.rc[5])
                                    /\ Chk("velocity and attitude", SubSeq(r.vp, 1, 3) = SubSeq(p.vp, 1, 3) /\ r.q = p.q)
                        ELSE Chk("states untouched", r.vp = p.vp /\ r.q = p.q /\ r.rc = p.rc)
                /\ map' = TRUE /\ req' = <<a[2], a[3]>>
                /\ watch' = IF aid /\ p.ov /\ ToSet(r.cs) \cap {"ev_pos", "ev_hgt", "ev_vel"} = {} THEN [on |-> TRUE, t |-> r.t, e |-> Err(r)] ELSE NoWatch
                /\ prev' = IF p = None THEN None ELSE r @@ p
Next == New \/ Par \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
