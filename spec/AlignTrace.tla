------------------------------ MODULE AlignTrace ------------------------------
(* Recorded starts and restarts of the whole filter. *)
EXTENDS EkfIntake, Align, Why, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, I, A, run, prev, since
vars == <<l, g, I, A, run, prev, since>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
Init == l = 1 /\ g = None /\ I = None /\ A = Fresh /\ run = FALSE /\ prev = None /\ since = 0
New == Is("new") /\ g' = Ev /\ I' = InNew(Ev) /\ A' = Fresh /\ run' = FALSE /\ prev' = None /\ since' = 0
Par == Is("par") /\ I' = InPar(I, Ev.n, Ev.v) /\ UNCHANGED <<g, A, run, prev, since>>
(* the averages of the inertial sample of this period *)
Acc == [k \in 1..3 |-> Round(Ev.rdv[k] * 10, (Ev.rdt + 500) \div 1000)]
Gyr == [k \in 1..3 |-> Round(Ev.rda[k] * 100, (Ev.rdt + 500) \div 1000)]
Got(st) == Gather(A, Acc, Gyr, st.ready["mag"], st.ready["baro"], Ev.bh)
Tol == 30
Pre == /\ Is("p") /\ ~run
       /\ LET st == InStep(I, Ev.t, Ev.d, Unstarted) B == Got(st)
          IN /\ Chk(<<"starts as soon as it can", B>>, ~MustStart(B, I.ol, g.mag_fusion_type, Tol))
             /\ I' = st.I /\ A' = B
       /\ UNCHANGED <<g, run, prev, since>>
(* down direction in the body frame, from attitude and from the averaged acceleration, 1e-4 *)
Down(q) == LET p(a, b) == ((q[a] \div 10) * (q[b] \div 10)) \div 10000
           IN <<2 * (p(2, 4) - p(1, 3)), 2 * (p(3, 4) + p(1, 2)), p(1, 1) - p(2, 2) - p(3, 3) + p(4, 4)>>
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Opposite(u, a, tol) == LET c == Cross(u, a) IN (\A k \in 1..3 : AbsA(c[k]) <= tol * Gee) /\ u[1] * a[1] + u[2] * a[2] + u[3] * a[3] < 0
First == /\ Is("u") /\ ~run
         /\ LET st == InStep(I, Ev.t, Ev.d, SNames \ {"flow"}) B == Got(st) cs == ToSet(Ev.cs) IN
            /\ Chk(<<"enough data", B, I.ol>>, Counted(B, I.ol, g.mag_fusion_type))
            /\ Chk(<<"still", B>>, Still(B, -Tol))
            /\ Chk(<<"level with gravity", Down(Ev.q), B.a>>, Opposite(Down(Ev.q), B.a, IF UsesMag(g.mag_fusion_type) THEN 250 ELSE 1200))
            /\ Chk("height source", "baro_hgt" \in cs \/ g.vdist_sensor_type # 0)
            /\ Chk("tilt not known yet", "tilt_align" \notin cs)
            /\ g.mag_fusion_type # 4 => Chk("yaw from magnetometer", ("yaw_align" \in cs) <=> UsesMag(g.mag_fusion_type))
            /\ I' = st.I /\ A' = B /\ run' = TRUE /\ prev' = Ev /\ since' = Ev.t
         /\ UNCHANGED g
(* turning mixes the components of the rotation vector *)
Spin(w) == 4 * (AbsA(w[1]) + AbsA(w[2]) + AbsA(w[3]))
(* first height innovation: against the average of the start *)
Step == /\ Is("u") /\ run
        /\ LET st == InStep(I, Ev.t, Ev.d, SNames \ {"flow"}) cs == ToSet(Ev.cs) was == ToSet(prev.cs) IN
           /\ I' = st.I
           /\ Chk("tilt stays aligned", "tilt_align" \in was => "tilt_align" \in cs)
           /\ "tilt_align" \notin was => (IF "tilt_align" \in cs THEN Chk(<<"tilt known well enough", prev.tvr>>, prev.tvr < (TiltLimit + TiltLimit \div 10) + Spin(Ev.rda))
                                          ELSE Chk(<<"tilt reported when known", prev.tvr>>, prev.tvr > (TiltLimit - TiltLimit \div 8) - Spin(Ev.rda)))
           /\ (g.mag_fusion_type # 4 /\ "tilt_align" \in cs /\ "tilt_align" \notin was) => Chk("yaw at tilt alignment", ("yaw_align" \in cs) <=> (UsesMag(g.mag_fusion_type) \/ cs \cap {"ev_yaw", "gps_yaw"} # {}))
           /\ UsesMag(g.mag_fusion_type) => Chk("yaw stays aligned", "yaw_align" \in was => "yaw_align" \in cs)
           /\ (Ev.t - since < 500000 /\ st.ready["baro"] /\ {"baro_hgt"} \subseteq cs \cap was) => Chk(<<"height from the average", A.h, Ev.bh, Ev.in.baro.i[1]>>, AbsA(Round(Ev.in.baro.i[1], 10) - (prev.vp[6] + Ev.bh - A.h)) <= 60)
           /\ prev' = Ev
        /\ UNCHANGED <<g, A, run, since>>
Call == /\ Is("call")
        /\ IF Ev.n = "init" THEN /\ Chk("everything cleared", ToSet(Ev.cs) \subseteq {"vehicle_at_rest", "in_air"})
                                 /\ A' = Fresh /\ run' = FALSE /\ prev' = None
           ELSE UNCHANGED <<A, run, prev>>
        /\ UNCHANGED <<g, I, since>>
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
