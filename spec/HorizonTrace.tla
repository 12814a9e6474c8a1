---------------------------- MODULE HorizonTrace ----------------------------
(* Whole-filter runs: the horizon walks through the recorded IMU history one sample per step, and measurements take effect in the step that reaches them. *)
EXTENDS EkfIntake, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, I, raw, prev, ran
vars == <<l, I, raw, prev, ran>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
Nothing == [bt |-> -1, cs |-> {}, in |-> [none |-> 0]]
Init == l = 1 /\ I = [none |-> 0] /\ raw = <<>> /\ prev = Nothing /\ ran = FALSE
Sample == [t |-> Ev.t, dv |-> Ev.rdv, da |-> Ev.rda, dt |-> Ev.rdt, cl |-> Ev.rcl, n |-> Ev.nraw]
AbsV(x) == IF x < 0 THEN -x ELSE x
NearSeq(a, b, tol) == \A k \in 1..Len(a) : AbsV(a[k] - b[k]) <= tol
Norm1(v) == AbsV(v[1]) + AbsV(v[2]) + AbsV(v[3])
(* the sample at the horizon is the one taken when that time was now *)
Replayed(h) == /\ Ev.td = h.t /\ Ev.hcl = h.cl /\ AbsV(Ev.hdt - h.dt) <= 2 + h.n
               /\ NearSeq(Ev.hdv, h.dv, 2 + 3 * h.n + (Norm1(h.dv) * Norm1(h.da)) \div 100000)
               /\ NearSeq(Ev.hda, h.da, 2 + h.n + (Norm1(h.da) * Norm1(h.da)) \div 100000)
New == Is("new") /\ I' = InNew(Ev) /\ raw' = <<>> /\ prev' = Nothing /\ ran' = FALSE
Par == Is("par") /\ I' = InPar(I, Ev.n, Ev.v) /\ UNCHANGED <<raw, prev, ran>>
(* a filter period before the filter has started *)
Pre == /\ Is("p") /\ ~ran
       /\ LET rw == Push(raw, I.il, Sample) st == InStep(I, Ev.t, Ev.d, Unstarted) IN Replayed(rw[1]) /\ raw' = rw /\ I' = st.I
       /\ UNCHANGED <<prev, ran>>
Both(f, p, c) == f \in p /\ f \in c
(* innovations of a source change exactly in the steps in which its data are ready (sensors are noisy in these runs) *)
Changes(name, r) == prev.in[name].x # Ev.in[name].x
OnlyWhen(name, r) == Changes(name, r) => r
Always(name, flag, r, c) == (r /\ Both(flag, prev.cs, c)) => Changes(name, r)
Step == /\ Is("u") /\ Ev.iu
        /\ LET rw == Push(raw, I.il, Sample)
               st == InStep(I, Ev.t, Ev.d, SNames \ {"flow"})
               cs == ToSet(Ev.cs)
               r == st.ready
           IN /\ Replayed(rw[1]) /\ raw' = rw
              /\ I' = st.I
              /\ ran' = TRUE
              /\ prev' = [bt |-> Ev.bt, cs |-> cs, in |-> Ev.in]
              /\ ran => /\ st.full => rw[1].t > raw[1].t
                        /\ (IF r["baro"] THEN Ev.bt = st.stamp["baro"] ELSE Ev.bt = prev.bt)
                        /\ OnlyWhen("gps", r["gps"]) /\ Always("gps", "gps", r["gps"], cs)
                        /\ OnlyWhen("ev", r["ev"]) /\ Always("ev", "ev_vel", r["ev"], cs) /\ Always("ev", "ev_pos", r["ev"], cs)
                        /\ OnlyWhen("tas", r["tas"])
                        /\ OnlyWhen("mag", r["mag"]) /\ Always("mag", "mag_3D", r["mag"], cs)
                        /\ "mag_field_disturbed" \notin cs => Always("hdg", "mag_hdg", r["mag"], cs)
                        /\ OnlyWhen("aux", r["aux"])
Next == New \/ Par \/ Pre \/ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
