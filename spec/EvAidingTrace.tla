---------------------------- MODULE EvAidingTrace ----------------------------
(* Recorded flights: start, end and resets of vision aiding. *)
EXTENDS EkfIntake, EvAiding, Why, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, I, prev, T
vars == <<l, g, I, prev, T>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
(* earliest and latest instant of the last accepted position, velocity and flow measurement *)
T0 == [pos |-> <<0, 0>>, vel |-> <<0, 0>>, flow |-> <<0, 0>>]
Init == l = 1 /\ g = None /\ I = None /\ prev = None /\ T = T0
New == Is("new") /\ g' = Ev /\ I' = InNew(Ev) /\ prev' = None /\ T' = T0
Raw == {"fusion_mode", "reset_timeout_max"}
Par == Is("par") /\ I' = InPar(I, Ev.n, Ev.v) /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n \in Raw THEN Ev.v \div 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<prev, T>>
Call == Is("call") /\ UNCHANGED <<g, I, prev, T>>
Pre == Is("p") /\ prev = None /\ I' = InStep(I, Ev.t, Ev.d, Unstarted).I /\ UNCHANGED <<g, prev, T>>
First == /\ Is("u") /\ prev = None
         /\ I' = InStep(I, Ev.t, Ev.d, SNames \ {"flow"}).I
         /\ Chk("no aiding at the start", ToSet(Ev.cs) \cap Modes = {})
         /\ T' = [pos |-> <<Ev.t, Ev.t>>, vel |-> <<Ev.t, Ev.t>>, flow |-> <<0, Ev.t>>]
         /\ prev' = Ev /\ UNCHANGED g
Moved(p, r, n, x) == p.in[n][x] # r.in[n][x]
Sel(m) == (IF Bit(m, 8) THEN {"ev_pos"} ELSE {}) \cup (IF Bit(m, 256) THEN {"ev_vel"} ELSE {}) \cup (IF Bit(m, 16) THEN {"ev_yaw"} ELSE {})
StartEvents == {"starting_vision_pos_fusion", "starting_vision_vel_fusion", "starting_vision_yaw_fusion"}
EventOf(m) == CASE m = "ev_pos" -> "starting_vision_pos_fusion" [] m = "ev_vel" -> "starting_vision_vel_fusion" [] OTHER -> "starting_vision_yaw_fusion"
Step ==
  /\ Is("u") /\ prev # None
  /\ LET r == Ev p == prev t == r.t
         cs == ToSet(r.cs) was == ToSet(p.cs) we == ToSet(r.we) ie == ToSet(r.ie) nf == ToSet(r.nf)
         st == InStep(I, t, r.d, SNames \ {"flow"})
         ready == st.ready["ev"]
         gps == "gps" \in cs gpsStart == "starting_gps_fusion" \in ie gyStart == "gps_yaw" \in cs \ was
         (* yaw may be given up for GNSS before vision is looked at *)
         wass == {was \cap Modes} \cup (IF gpsStart \/ gyStart THEN {(was \cap Modes) \ {"ev_yaw"}} ELSE {})
         yaws == IF "yaw_align" \notin cs THEN {FALSE} \cup (IF "yaw_align" \in was THEN {TRUE} ELSE {})
                 ELSE {TRUE} \cup (IF "yaw_align" \notin was /\ "starting_vision_yaw_fusion" \in ie THEN {FALSE} ELSE {})
         C(y) == [sel |-> Sel(g.fusion_mode), ready |-> ready, last |-> st.I.S.ev.last, gps |-> gps \/ "gps_yaw" \in cs, tilt |-> "tilt_align" \in cs, yaw |-> y]
         wait == g.reset_timeout_max
         odom == Bit(g.fusion_mode, 1) rot == Bit(g.fusion_mode, 64)
         started(m) == EventOf(m) \in ie
         on(m) == m \in cs
         toVis == "reset_pos_to_vision" \in ie
         (* resets of the step: GNSS before vision, flow may have restarted *)
         np == (r.rc[2] - p.rc[2] + 256) % 256
         nv == (r.rc[1] - p.rc[1] + 256) % 256
         told == (we \cup ie) \cap {"reset_pos_to_gps", "reset_vel_to_gps", "emergency_yaw_reset_mag_stopped", "yaw_aligned_to_imu_gps"} # {}
         flowing == "opt_flow" \in cs \cup was
         quietG == ~Moved(p, r, "gps", "x") /\ ~told
         tryE == ready /\ Moved(p, r, "ev", "x")
         tryP == tryE /\ on("ev_pos") /\ r.in.ev.v[4] # 0 tryV == tryE /\ on("ev_vel")
         fake == cs \cap {"gps", "opt_flow", "ev_pos", "ev_vel"} = {}
         gpsP == (~quietG /\ gps) \/ told
         (* what vision knows when it decides about a reset: GNSS of the same step included *)
         at(x) == IF gpsP THEN <<x[1], t>> ELSE x
         P == at(T.pos) V == at(T.vel) F == IF flowing THEN <<T.flow[1], t>> ELSE T.flow
         mayP == on("ev_pos") /\ ready /\ ~odom /\ ResetPos(P[1], wait, t)
         mustP == on("ev_pos") /\ ready /\ ~odom /\ ResetPos(P[2], wait, t)
         mustVP == mustP /\ Over(F[2], Alone, t) /\ Over(V[2], Alone, t)
         mustVV == on("ev_vel") /\ ready /\ Over(V[2], wait, t) /\ Over(F[2], Alone, t) /\ Over(IF tryP /\ "reject_hor_pos" \notin nf THEN t ELSE P[2], Alone, t)
         mayVV == (on("ev_vel") /\ ready /\ Over(V[1], wait, t) /\ Over(F[1], Alone, t) /\ Over(P[1], Alone, t)) \/ (mayP /\ Over(F[1], Alone, t) /\ Over(V[1], Alone, t))
         other == gpsStart \/ told \/ flowing \/ fake \/ "opt_flow" \in cs \ was
         own(x, try, flag) == IF try /\ flag \notin nf THEN (IF (flag = "reject_hor_pos" /\ odom) \/ (tryP /\ tryV /\ FALSE) THEN x ELSE <<t, t>>) ELSE x
     IN /\ I' = st.I
        /\ Chk(<<"vision aiding", C(TRUE), wass, yaws, cs \cap Modes, ie \cap StartEvents, t>>,
               \E w \in wass : \E y \in yaws : LET a == Vision(w, C(y), wait, t) IN
                  /\ a.on = cs \cap Modes /\ ie \cap StartEvents = {EventOf(m) : m \in a.start} /\ ("vision_data_stopped" \in we) = a.stopped)
        (* start: states are taken from the vision measurement unless something else already aids *)
        /\ started("ev_pos") => /\ Chk("position reset at the start", np >= 1)
                                /\ (~gps /\ ~odom) => /\ Chk("position from vision", toVis)
                                                      /\ Chk(<<"at the vision position", r.in.ev.i>>, rot \/ (AbsI(r.in.ev.i[4]) <= 50 /\ AbsI(r.in.ev.i[5]) <= 50))
        /\ started("ev_vel") => /\ Chk("velocity reset at the start", nv >= 1)
                                /\ (~gps /\ ~flowing) => /\ Chk("velocity from vision", "reset_vel_to_vision" \in ie)
                                                         /\ Chk(<<"at the vision velocity", r.in.ev.i>>, AbsI(r.in.ev.i[1]) <= 50 /\ AbsI(r.in.ev.i[2]) <= 50)
        /\ started("ev_yaw") => /\ Chk("attitude reset at the start", (r.rc[5] - p.rc[5] + 256) % 256 >= 1)
                                /\ Chk("no magnetometer with vision yaw", cs \cap {"mag_hdg", "mag_3D", "mag_dec"} = {} /\ "yaw_align" \in cs)
                                /\ Chk(<<"yaw from vision", r.in.hdg.i>>, AbsI(r.in.hdg.i[1]) <= 500)
        (* measurements are never believed beyond their noise *)
        /\ (tryP /\ ~fake) => Chk(<<"variance of the vision position", r.in.ev.v>>, r.in.ev.v[4] >= (IF odom THEN 249000 ELSE 99) /\ r.in.ev.v[5] >= (IF odom THEN 249000 ELSE 99))
        /\ tryV => Chk(<<"variance of the vision velocity", r.in.ev.v>>, r.in.ev.v[1] >= 2490 /\ r.in.ev.v[2] >= 2490)
        (* resets *)
        /\ (np > 0 /\ ~other /\ ~started("ev_pos")) => Chk(<<"position reset without need", T, t>>, mayP)
        /\ (nv > 0 /\ ~other /\ ~started("ev_vel") /\ ~started("ev_pos")) => Chk(<<"velocity reset without need", T, t>>, mayVV)
        /\ (mustP /\ ~started("ev_pos") /\ ~gps) => /\ Chk(<<"needed reset", T, t>>, np > 0 /\ toVis)
                                                    /\ Chk(<<"at the vision position again", r.in.ev.i>>, rot \/ (AbsI(r.in.ev.i[4]) <= 50 /\ AbsI(r.in.ev.i[5]) <= 50))
        /\ (mustVP \/ mustVV) => Chk(<<"needed velocity reset", T, t>>, nv > 0)
        /\ T' = [pos |-> IF told THEN <<T.pos[1], t>> ELSE IF fake \/ gpsP THEN (IF tryP THEN <<P[1], t>> ELSE <<P[1], t>>) ELSE own(P, tryP, "reject_hor_pos"),
                 vel |-> IF gpsP \/ Moved(p, r, "aux", "x") THEN <<V[1], t>> ELSE own(V, tryV, "reject_hor_vel"),
                 flow |-> F]
  /\ prev' = Ev /\ UNCHANGED g
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
