---------------------------- MODULE MagModesTrace ----------------------------
(* Recorded flights: which magnetometer fusion is active, and what is done with the measurements. *)
EXTENDS EkfIntake, MagModes, Why, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, I, prev, M
vars == <<l, g, I, prev, M>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
Ago == -1000000
(* dirty / clean: last arrival of a sample in / out of the disturbed range (by both references); n, e: filtered horizontal acceleration, 1e-4 m/s^2;
   turn / calm: since when the vehicle surely turns / surely does not; sure / maybe: when yaw or field was last surely / possibly observable; req: a yaw reset may be wanted; inh: inhibited at the last sample ({TRUE}, {FALSE} or both) *)
M0 == [dirty |-> <<Ago, Ago>>, clean |-> <<Ago, Ago>>, n |-> 0, e |-> 0, turn |-> 0, calm |-> 0, sure |-> Ago, maybe |-> 0, req |-> TRUE, inh |-> {FALSE}, known |-> FALSE, arr |-> Ago, edge |-> FALSE]
Init == l = 1 /\ g = None /\ I = None /\ prev = None /\ M = M0
New == Is("new") /\ g' = Ev /\ I' = InNew(Ev) /\ prev' = None /\ M' = M0
Raw == {"mag_fusion_type", "check_mag_strength", "mag_declination_source", "fusion_mode"}
Par == Is("par") /\ I' = InPar(I, Ev.n, Ev.v) /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n \in Raw THEN Ev.v \div 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<prev, M>>
Call == Is("call") /\ UNCHANGED <<g, I, prev, M>>
Tol == 150
(* a sample that surely is (not) within the range around e *)
SurelyIn(s, e, w) == Within(s, e, w - Tol)
SurelyOut(s, e, w) == ~Within(s, e, w + Tol)
Mags(d) == SelectSeq(d, LAMBDA x : x[1] = "mag")
RECURSIVE Note(_, _)
Note(m, q) == IF q = <<>> THEN m
  ELSE LET x == Head(q)
           fresh == x[2] - m.arr < 300000
           k(i, known) == <<IF fresh /\ SurelyIn(x[3], Expected(known, x[4]), Gate(known)) THEN m.dirty[i] ELSE x[2], IF fresh /\ SurelyOut(x[3], Expected(known, x[4]), Gate(known)) THEN m.clean[i] ELSE x[2]>>
       IN Note([m EXCEPT !.arr = x[2], !.dirty = <<k(1, FALSE)[1], k(2, TRUE)[1]>>, !.clean = <<k(1, FALSE)[2], k(2, TRUE)[2]>>], Tail(q))
Pre == Is("p") /\ prev = None /\ I' = InStep(I, Ev.t, Ev.d, Unstarted).I /\ M' = Note(M, Mags(Ev.d)) /\ UNCHANGED <<g, prev>>
First == /\ Is("u") /\ prev = None /\ I' = InStep(I, Ev.t, Ev.d, SNames \ {"flow"}).I /\ M' = Note(M, Mags(Ev.d))
         /\ prev' = Ev /\ UNCHANGED g
Moved(p, r, n, x) == p.in[n][x] # r.in[n][x]
Second == 1000000
(* long enough for the sample to have reached the horizon *)
Reach == 1000000
Step ==
  /\ Is("u") /\ prev # None
  /\ \E st \in {InStep(I, Ev.t, Ev.d, SNames \ {"flow"})} : \E N \in {Note(M, Mags(Ev.d))} : \E cs \in {ToSet(Ev.cs)} : \E was \in {ToSet(prev.cs)} :
     LET r == Ev p == prev t == r.t ie == ToSet(r.ie) we == ToSet(r.we)
         type == g.mag_fusion_type
         ready == st.ready["mag"]
         air == "in_air" \in cs
         wasO == was \cap {"ev_yaw", "gps_yaw"}
         tilting == "tilt_align" \in cs \ was
         yaws == IF tilting THEN BOOLEAN ELSE {"yaw_align" \in was}
         al0 == "mag_aligned_in_flight" \in was al1 == "mag_aligned_in_flight" \in cs
         late == we \cap {"gps_fusion_timout"} # {} \/ "emergency_yaw_reset_mag_stopped" \in we
         als == IF late THEN BOOLEAN ELSE {al1}
         runs == type < Never /\ "mag_fault" \notin was /\ "yaw_align" \in was /\ wasO = {} /\ ready
         (* motion of the truth at the horizon *)
         dt == r.hdt
         low(x, v) == x - (((x \div 100) * (dt \div 100)) \div 100) + v
         n == low(N.n, (r.tv3[1] - p.tv3[1]) * 10) e == low(N.e, (r.tv3[2] - p.tv3[2]) * 10)
         gate == g.mag_acc_gate * 10
         norm2 == (n \div 10) * (n \div 10) + (e \div 10) * (e \div 10)
         sq(x) == (x \div 10) * (x \div 10)
         helps == was \cap {"gps", "ev_pos"} # {}
         dy == LET z == r.ty - p.ty IN IF z > 31416 THEN z - 62832 ELSE IF z < -31416 THEN z + 62832 ELSE z
         rate == (AbsI(dy) * 1000) \div (IF dt < 1000 THEN 1 ELSE dt \div 1000)      \* 1e-4 rad/s
         turn == IF rate > g.mag_yaw_rate_gate * 14 THEN N.turn ELSE t
         calm == IF rate < g.mag_yaw_rate_gate * 4 /\ (AbsI(r.rda[3]) * 100000) \div (IF r.rdt < 1000 THEN 1000 ELSE r.rdt) < g.mag_yaw_rate_gate * 4 THEN N.calm ELSE t
         sureNow == (helps /\ norm2 > sq(2 * gate + 4000)) \/ t - turn > Second
         maybeNow == (helps /\ norm2 > sq(IF gate > 3500 THEN gate - 3000 ELSE 500)) \/ t - calm < Second \/ AbsI(r.ye) > 1500 \/ r.te > 300
         sure == IF runs /\ sureNow /\ r.te < 300 THEN t ELSE N.sure
         maybe == IF maybeNow THEN t ELSE N.maybe
         suits == (IF t - sure < 1700000 THEN {TRUE} ELSE IF t - maybe > 2300000 THEN {FALSE} ELSE BOOLEAN)
         C(y, a, s) == [type |-> type, fault |-> "mag_fault" \in was, yaw |-> y, other |-> wasO # {}, ready |-> ready, aligned |-> a, suitable |-> s,
                        gps |-> "gps" \in was, decl |-> Bit(g.mag_declination_source, 4)]
         taken == "starting_vision_yaw_fusion" \in ie \/ "gps_yaw" \in cs \ was
         now == cs \cap Modes
         (* field *)
         known == r.ov
         k == IF known THEN 2 ELSE 1
         settled == known = N.known
         disturbed == "mag_field_disturbed" \in cs
         check == Bit(g.check_mag_strength, 1)
         nav == was \cap {"gps", "ev_pos", "ev_vel"} # {}
         inh == IF runs THEN {Inhibited([type |-> type, disturbed |-> disturbed, nav |-> nav])} ELSE IF late THEN BOOLEAN ELSE N.inh
         above == p.tp - p.vp[6]
         other == wasO # {} \/ taken
         why == N.req \/ above > 1400 \/ other \/ ie \cap {"gps_checks_passed", "starting_gps_fusion"} # {} \/ (known /\ ~N.known) \/ late
         must == runs /\ air /\ ~al0 /\ above > 1600 /\ N.inh = {FALSE} /\ "fixed_wing" \notin cs /\ ~disturbed /\ type \in {Auto, Heading, ThreeAxes} /\ ~late
         still == "vehicle_at_rest" \in cs
     IN /\ I' = st.I
        /\ Chk(<<"magnetometer modes", was \cap Modes, now, C(TRUE, al1, TRUE), yaws, suits, t>>,
               \E y \in yaws : \E a \in als : \E s \in suits : TakenOver(Select(was \cap Modes, C(y, a, s)), taken) = now)
        /\ Chk("no magnetometer with another yaw", (cs \cap {"ev_yaw", "gps_yaw"} # {}) => now = {})
        (* strength of the field *)
        /\ (type < Never /\ check /\ settled /\ t - N.clean[k] > Reach /\ N.arr > N.clean[k]) => Chk(<<"disturbed field noticed", N, t>>, disturbed)
        /\ (type < Never /\ (~check \/ (settled /\ t - N.dirty[k] > Reach /\ N.arr > N.dirty[k]))) => Chk(<<"disturbed without reason", N, t>>, ~disturbed)
        (* in-flight alignment *)
        /\ (al1 /\ ~al0) => Chk(<<"aligned in flight", above>>, air /\ why)
        /\ (al0 /\ ~al1 /\ type < Never) => Chk("alignment lost", ~air \/ why)
        /\ must => Chk(<<"aligned when high enough", above, N>>, al1)
        /\ (type < Never /\ ~air /\ ~late) => Chk("not aligned on the ground", ~al1)
        (* the magnetometer takes over from another source of yaw *)
        /\ (runs /\ N.edge /\ N.inh = {FALSE} /\ ~disturbed /\ type \in {Auto, Heading, ThreeAxes} /\ "fixed_wing" \notin cs) => Chk("yaw taken from the magnetometer", r.rc[5] # p.rc[5])
        (* use of the measurements *)
        /\ (runs /\ "mag_3D" \in now) => Chk("all axes used", Moved(p, r, "mag", "x"))
        /\ (~ready \/ "mag_3D" \notin now \cup was) => Chk("no axes used", ~Moved(p, r, "mag", "x"))
        /\ (runs /\ "mag_hdg" \in now /\ inh = {FALSE} /\ ~taken /\ "reject_yaw" \notin ToSet(r.nf)) => Chk("heading used", Moved(p, r, "hdg", "x"))
        /\ (runs /\ "mag_hdg" \in now /\ inh = {TRUE} /\ ~still /\ ~taken /\ Moved(p, r, "hdg", "x")) => Chk(<<"disturbed heading not used", r.in.hdg>>, r.in.hdg.i[1] = 0 /\ r.in.hdg.v[1] >= 249000)
        /\ (type < Never /\ ~ready /\ wasO = {} /\ cs \cap {"ev_yaw", "gps_yaw"} = {} /\ ~late) => Chk("no heading used", ~Moved(p, r, "hdg", "x"))
        /\ M' = [N EXCEPT !.n = n, !.e = e, !.turn = turn, !.calm = calm, !.sure = sure, !.maybe = maybe, !.inh = inh, !.known = known, !.edge = (cs \cap {"ev_yaw", "gps_yaw"} = {} /\ (wasO # {} \/ (N.edge /\ ~runs))),
                          !.req = IF runs /\ ~air /\ inh = {FALSE} /\ N.inh = {FALSE} /\ ~disturbed /\ ~other THEN FALSE ELSE (why /\ ~must) ]
  /\ prev' = Ev /\ UNCHANGED g
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
