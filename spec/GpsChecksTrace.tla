---------------------------- MODULE GpsChecksTrace ----------------------------
(* Recorded GNSS messages against GpsChecks. *)
EXTENDS GpsChecks, Why, Sequences, Json, IOUtils
CONSTANTS Health
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, G, health, init, ned, last
vars == <<l, g, G, health, init, ned, last>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
Nothing == [chk |-> 0, m0 |-> 0, m1 |-> 0, m2 |-> 0]
Init == l = 1 /\ g = [none |-> 0] /\ G = GInit /\ health = Health /\ init = FALSE /\ ned = FALSE /\ last = Nothing
New == Is("new") /\ g' = Ev /\ G' = GInit /\ health' = Health /\ init' = FALSE /\ ned' = FALSE /\ last' = Nothing
Par == Is("par") /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n \in {"gps_check_mask", "req_nsats"} THEN Ev.v \div 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<G, health, init, ned, last>>
Flagged(chk) == {Names[k] : k \in {j \in 1..Len(Names) : (chk \div (2 ^ (j - 1))) % 2 = 1}}
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
(* a threshold test on a value known to within tol *)
Decided(flag, x, lim, tol) == AbsI(x - lim) > tol => (flag <=> x > lim)
Used(m) == m.fix > 2 /\ ((g.fusion_mode % 2 = 1) \/ g.vdist_sensor_type = 1)
(* S: [G, ned, last, set, ok]; m: message *)
Msg(S, m, filt) ==
  IF ~Used(m) THEN [S EXCEPT !.ok = @ /\ Chk("unused message changes nothing", m.chk = S.last.chk /\ m.m0 = S.last.m0 /\ m.m1 = S.last.m1 /\ m.m2 = S.last.m2 /\ m.ov = S.ned), !.last = m]
  ELSE
  LET H0 == Take(S.G, m, g)
      F == Flagged(m.chk)
      still == (~m.air) /\ m.rest
      H == [H0 EXCEPT !.kept = F \cap Drifts]
      R == Record(H, F, m.ti, g)
      good == Good(R, m.ti, S.health)
      ned1 == S.ned \/ (filt /\ good)
  IN [S EXCEPT !.G = R, !.ned = ned1, !.last = m, !.set = @ \/ (ned1 /\ ~S.ned),
      !.ok = @ /\ Chk("fix", "fix" \notin F)
             /\ Chk(<<"simple", Simple(m, g), F>>, F \cap {"nsats", "pdop", "hacc", "vacc", "sacc"} = Simple(m, g))
             /\ Chk(<<"hdrift metric", H0.h, m.m0>>, Near(H0.h, 10 * m.m0, 300)) /\ Chk(<<"vdrift metric", H0.d, m.m1>>, Near(H0.d, 10 * m.m1, 300)) /\ Chk(<<"speed metric", H0.s, m.m2>>, Near(H0.s, 10 * m.m2, 300))
             /\ (IF still THEN Chk("drift flags", Decided("hdrift" \in F, m.m0, 10 * g.req_hdrift, 1) /\ Decided("vdrift" \in F, m.m1, 10 * g.req_vdrift, 1) /\ Decided("hspeed" \in F, m.m2, 10 * g.req_hdrift, 1))
                 ELSE Chk("drift flags not at rest", F \cap Drifts = H0.kept) /\ Chk("metrics not at rest", m.m0 = S.last.m0 /\ m.m1 = S.last.m1 /\ m.m2 = S.last.m2))
             /\ Chk(<<"vspeed", H0.v>>, Decided("vspeed" \in F, H0.v, 100 * g.req_vdrift, 300))
             /\ Chk("metrics updated", m.du = ~m.air) /\ Chk("blocked", m.bl = ~m.rest)
             /\ Chk(<<"good", R.lastFail, m.ti, ned1>>, m.ov = ned1)]
RECURSIVE Msgs(_, _, _, _)
Msgs(S, d, k, filt) == IF k > Len(d) THEN S ELSE Msgs(IF d[k][1] = "gps" THEN Msg(S, d[k][6], filt) ELSE S, d, k + 1, filt)
Calls(c, h) == LET K == {k \in 1..Len(c) : c[k][1] = "gpshealth"} IN IF K = {} THEN h ELSE c[CHOOSE k \in K : \A j \in K : j <= k][2]
Step == /\ Is("u")
        /\ LET h == Calls(Ev.c, health)
               S == Msgs([G |-> G, ned |-> ned, last |-> last, set |-> FALSE, health |-> h, ok |-> TRUE], Ev.d, 1, init)
           IN /\ S.ok
              /\ Chk("event", ("gps_checks_passed" \in ToSet(Ev.ie)) <=> S.set)
              /\ Chk("origin validity", Ev.ogn = S.ned)
              /\ health' = h /\ G' = S.G /\ ned' = S.ned /\ last' = S.last
        /\ init' = TRUE /\ UNCHANGED g
Next == New \/ Par \/ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
