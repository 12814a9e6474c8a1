---------------------------- MODULE GatingTrace ----------------------------
(* Every innovation test of recorded flights, and pairs of flights that differ in one sensor only. *)
EXTENDS Gating, Why, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, prev, synced, grounded, hagl
vars == <<l, g, prev, synced, grounded, hagl>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
Init == l = 1 /\ g = None /\ prev = None /\ synced = FALSE /\ grounded = 0 /\ hagl = -100000000
New == Is("new") /\ g' = Ev /\ prev' = None /\ synced' = TRUE /\ grounded' = 0 /\ hagl' = -100000000
Par == Is("par") /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = Ev.v \div 10] ELSE g) /\ UNCHANGED <<prev, synced, grounded, hagl>>

(* one channel: group, components, index of its ratio, gate, and whether it is in use *)
Ch(grp, comp, ri, gate, used, flag) == [grp |-> grp, comp |-> comp, ri |-> ri, gate |-> gate, used |-> used, flag |-> flag]
Channels(r) ==
  LET cs == ToSet(r.cs) IN <<
   Ch("gps", {1, 2}, 1, g.gps_vel_innov_gate, "gps" \in cs, "reject_hor_vel"),
   Ch("gps", {3}, 2, g.gps_vel_innov_gate, "gps" \in cs, "reject_ver_vel"),
   Ch("gps", {4, 5}, 3, g.gps_pos_innov_gate, "gps" \in cs, "reject_hor_pos"),
   Ch("gps", {6}, 4, g.baro_innov_gate, "gps_hgt" \in cs, "reject_ver_pos"),
   Ch("ev", {1, 2}, 1, g.ev_vel_innov_gate, "ev_vel" \in cs, "reject_hor_vel"),
   Ch("ev", {3}, 2, g.ev_vel_innov_gate, "ev_vel" \in cs, "reject_ver_vel"),
   Ch("ev", {4, 5}, 3, g.ev_pos_innov_gate, "ev_pos" \in cs, "reject_hor_pos"),
   Ch("ev", {6}, 4, g.ev_pos_innov_gate, "ev_hgt" \in cs, "reject_ver_pos"),
   Ch("aux", {1, 2}, 1, g.auxvel_gate, cs \cap {"gps", "ev_pos", "ev_vel", "opt_flow"} # {}, "reject_hor_vel"),
   Ch("baro", {1}, 1, g.baro_innov_gate, "baro_hgt" \in cs, "reject_ver_pos"),
   Ch("rng", {1}, 1, g.range_innov_gate, "rng_hgt" \in cs, "reject_ver_pos"),
   Ch("flow", {1, 2}, 1, g.flow_innov_gate, "opt_flow" \in cs, ""),
   Ch("hdg", {1}, 1, g.heading_innov_gate, cs \cap {"mag_hdg", "gps_yaw", "ev_yaw"} # {}, "reject_yaw"),
   Ch("mag", {1, 2, 3}, 1, g.mag_innov_gate, "mag_3D" \in cs, ""),
   Ch("tas", {1}, 1, g.tas_innov_gate, TRUE, "reject_airspeed"),
   Ch("beta", {1}, 1, g.beta_innov_gate, TRUE, "reject_sideslip"),
   Ch("hagl", {1}, 1, g.range_innov_gate, TRUE, "reject_hagl"),
   Ch("drag", {1}, 1, 500, TRUE, ""), Ch("drag", {2}, 2, 500, TRUE, "") >>
N(r, c) == LET q == {r.in[c.grp].n[k] : k \in c.comp} IN CHOOSE m \in q : \A o \in q : o <= m
R(r, c) == r.in[c.grp].r[c.ri]
(* considered in this step, as far as the recorded resolution shows *)
Considered(p, r, c) == c.used /\ \E k \in c.comp : p.in[c.grp].i[k] # r.in[c.grp].i[k] \/ p.in[c.grp].v[k] # r.in[c.grp].v[k]
(* innovation and variance may have stayed as they were to the last bit only if the measurement was not considered *)
Untouched(p, r, grps) == \A x \in grps : p.in[x].x = r.in[x].x
(* the failure flag was decided by the last channel considered in the step that shares it *)
Later(c, d) == CASE c.grp = "gps" -> d.grp \in {"ev", "aux"} [] c.grp = "ev" -> d.grp = "aux" [] OTHER -> FALSE
NF(r) == ToSet(r.nf)
BadZ(r) == "bad_acc_vertical" \in ToSet(r.fs)
Vertical == {"reject_ver_vel", "reject_ver_pos"}
(* vector measurements that pass are fused one axis after the other, each with the variance left by the one before (which a partial update may also have increased) *)
SomewhereBetween(n1, rr, n, gate) == n <= 20000000 => (rr \div 10) <= Ratio(n, gate) + 5 + Ratio(n, gate) \div 4 /\ (rr \div 10) >= (Ratio(n1, gate) - 5) - Ratio(n1, gate) \div 300
ChannelOK(p, r, C, c) ==
  Considered(p, r, c) =>
    /\ Chk(<<"ratio", c.grp, c.comp>>, IF c.grp \in {"mag", "flow"} /\ ~Rejected(R(r, c)) THEN SomewhereBetween(r.in[c.grp].n[1], R(r, c), N(r, c), c.gate) ELSE IF c.grp = "hdg" /\ Rejected(R(r, c)) THEN TRUE (* a refused yaw innovation is not kept *) ELSE IF c.grp = "aux" THEN RawRatioOK(R(r, c), N(r, c), c.gate) ELSE RatioOK(R(r, c), N(r, c), c.gate))
    /\ (c.flag # "" /\ ~\E k \in 1..Len(C) : Later(c, C[k]) /\ C[k].flag = c.flag /\ p.in[C[k].grp].x # r.in[C[k].grp].x) =>
         Chk(<<"flag", c.grp, c.flag>>, IF c.flag = "reject_hagl" THEN Sure(R(r, c)) => IF Rejected(R(r, c)) THEN c.flag \in NF(r) \/ r.t - hagl > 9900000 (* then the terrain is taken from the reading *) ELSE c.flag \notin NF(r)
         ELSE IF c.flag \in Vertical /\ (BadZ(r) \/ BadZ(p)) THEN (c.flag \in NF(r) => Rejected(R(r, c)) \/ ~Sure(R(r, c))) /\ (BadZ(r) /\ BadZ(p) => c.flag \notin NF(r))
         ELSE FlagOK(R(r, c), c.flag \in NF(r)))
AxisFlag(r, grp, k, gate, flag) == LET q == Ratio(r.in[grp].n[k], gate) * 10 IN (r.in[grp].n[k] < 20000000 /\ AbsI(q - 10000) > 150) => (flag \in NF(r) <=> q > 10000)
AxesOK(p, r, grp, used, gate, flags) == Chk(<<"axes", grp>>, (used /\ p.in[grp].x # r.in[grp].x /\ r.in[grp].r[1] # 0) => \A k \in 1..Len(flags) : IF Rejected(r.in[grp].r[1]) THEN AxisFlag(r, grp, k, gate, flags[k]) ELSE Sure(r.in[grp].r[1]) => flags[k] \notin NF(r))
Keep(p, r, flag, grps) == Chk(<<"keep", flag>>, Untouched(p, r, grps) => ((flag \in NF(p)) <=> (flag \in NF(r))))
StepOK(p, r) ==
  LET C == Channels(r) cs == ToSet(r.cs) pc == ToSet(p.cs) IN
  /\ \A k \in 1..Len(C) : ChannelOK(p, r, C, C[k])
  /\ AxesOK(p, r, "mag", "mag_3D" \in cs, g.mag_innov_gate, <<"reject_mag_x", "reject_mag_y", "reject_mag_z">>)
  /\ AxesOK(p, r, "flow", "opt_flow" \in cs /\ "opt_flow" \in pc, g.flow_innov_gate, <<"reject_optflow_X", "reject_optflow_Y">>)
  /\ Keep(p, r, "reject_hor_vel", {"gps", "ev", "aux"}) /\ Keep(p, r, "reject_ver_vel", {"gps", "ev"})
  /\ \A f \in {"reject_mag_x", "reject_mag_y", "reject_mag_z"} : Keep(p, r, f, {"mag"})
  /\ \A f \in {"reject_optflow_X", "reject_optflow_Y"} : Keep(p, r, f, {"flow"})
  /\ Keep(p, r, "reject_yaw", {"hdg"}) /\ Keep(p, r, "reject_airspeed", {"tas"}) /\ Keep(p, r, "reject_sideslip", {"beta"})

(* two filters that agreed to the last bit and now see different readings *)
Differ(a, b) == LET C == Channels(a) IN {k \in 1..Len(C) : R(a, C[k]) # R(b, C[k]) \/ \E m \in C[k].comp : a.in[C[k].grp].i[m] # b.in[C[k].grp].i[m]}
(* what each twin did with the measurement: refused it, or did not look at it *)
Refused(p, r, c) == Rejected(R(r, c)) \/ p.in[c.grp].x = r.in[c.grp].x
RefusedOrUnseen(p, r, c) == Rejected(R(r, c)) \/ ~\E k \in c.comp : p.in[c.grp].i[k] # r.in[c.grp].i[k] \/ p.in[c.grp].v[k] # r.in[c.grp].v[k]
TwinOK(p, a, q, b, fly) ==
  LET C == Channels(a) D == Differ(a, b) S == {k \in D : C[k].used /\ C[k].grp # "hagl"}
      clamped == BadZ(a) \/ BadZ(b) \/ ~fly
  IN /\ Chk(<<"untouched", {C[k].grp : k \in D}>>, ((\A x \in {C[k].grp : k \in 1..Len(C)} \ {C[k].grp : k \in D} : a.in[x].x = b.in[x].x) /\ \A k \in S : Refused(p, a, C[k]) /\ Refused(q, b, C[k])) => a.hs = b.hs \/ clamped)
     /\ Chk(<<"fused", {C[k].grp : k \in D}>>, a.hs = b.hs => \A k \in S : (RefusedOrUnseen(p, a, C[k]) /\ RefusedOrUnseen(q, b, C[k])) \/ clamped)
     /\ Chk("terrain", (a.hs = b.hs /\ p.ht = q.ht /\ \E k \in D : C[k].grp = "hagl" /\ Refused(p, a, C[k]) /\ Refused(q, b, C[k])) => a.ht = b.ht \/ a.t - hagl > 9900000)
Same(a, b) == a.cs = b.cs /\ a.rc = b.rc
Step == /\ Is("u")
        /\ prev # None => StepOK(prev, Ev)
        /\ grounded' = IF "in_air" \in ToSet(Ev.cs) THEN grounded + 1 ELSE 0
        /\ IF "b" \notin DOMAIN Ev THEN synced' = FALSE
           ELSE LET p == IF prev = None THEN [rc |-> Ev.rc, cs |-> Ev.cs, hs |-> <<>>] ELSE prev
                    same == Same(Ev, Ev.b) /\ p.rc = Ev.rc /\ p.cs = Ev.cs
                IN /\ Ev.b.e = "u"
                   /\ (prev # None /\ synced /\ same) => TwinOK(prev, Ev, prev.b, Ev.b, grounded > 10)
                   /\ synced' = (synced /\ same /\ Ev.hs = Ev.b.hs)
        /\ hagl' = IF "in_air" \in ToSet(Ev.cs) /\ prev # None /\ prev.in["hagl"].x # Ev.in["hagl"].x /\ ~Rejected(Ev.in["hagl"].r[1]) THEN Ev.t ELSE hagl
        /\ prev' = Ev
        /\ UNCHANGED g
Next == New \/ Par \/ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
