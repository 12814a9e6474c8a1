--------------------------- MODULE HeightSourceTrace ---------------------------
(* Recorded flights with losses and faults of the height measurements. *)
EXTENDS EkfIntake, HeightSource, Why, Json, IOUtils
CONSTANTS StaleVision      \* vision as the source: the last sample is used again and again (known finding), allowed if TRUE
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, I, prev, T
vars == <<l, g, I, prev, T>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [none |-> 0]
LongAgo == -100000000
T0 == [f |-> 0, rjump |-> LongAgo, dist |-> 0, jump |-> LongAgo, alt |-> 0, clear |-> LongAgo, fail |-> LongAgo, pass |-> LongAgo, msg |-> LongAgo, acc |-> FALSE, rbad |-> LongAgo, rlast |-> LongAgo, base |-> 0, known |-> FALSE, slack |-> 0, evt |-> FALSE, bt |-> 0, gap |-> LongAgo, switch |-> LongAgo]
Init == l = 1 /\ g = None /\ I = None /\ prev = None /\ T = T0
New == Is("new") /\ g' = Ev /\ I' = InNew(Ev) /\ prev' = None /\ T' = T0
Par == Is("par") /\ I' = InPar(I, Ev.n, Ev.v) /\ g' = (IF Ev.n \in DOMAIN g THEN [g EXCEPT ![Ev.n] = IF Ev.n \in {"fusion_mode", "vdist_sensor_type", "range_aid", "bad_acc_reset_delay_us"} THEN Ev.v \div 1000 ELSE Ev.v] ELSE g) /\ UNCHANGED <<prev, T>>
Call == Is("call") /\ UNCHANGED <<g, I, prev, T>>
AbsI(x) == IF x < 0 THEN -x ELSE x
Clamp(x, a) == IF x > a THEN a ELSE IF x < -a THEN -a ELSE x
(* follow what the deliveries say about GNSS and range finder *)
(* bit k + 1 of the failures belongs to bit k of the selection *)
Refused(chk, mask) == chk % 2 = 1 \/ \E k \in 0..8 : (chk \div (2 ^ (k + 1))) % 2 = 1 /\ (mask \div (2 ^ k)) % 2 = 1
RECURSIVE Watch(_, _, _, _, _)
Watch(W, d, k, lastGps, p) ==
  IF k > Len(d) THEN W
  ELSE LET m == d[k] IN
       Watch(CASE m[1] = "gps" /\ ~(Bit(p.fusion_mode, 1) \/ p.vdist_sensor_type = 1) -> W
               [] m[1] = "gps" -> [W EXCEPT !.acc = IF m[2] = lastGps THEN m[6].epv < p.req_vacc ELSE @, !.fail = IF m[3] < 3 \/ Refused(m[5], p.gps_check_mask) THEN m[2] ELSE @,
                                            !.pass = IF @ = LongAgo /\ m[3] > 2 THEN m[2] ELSE @, !.msg = m[2], !.jump = IF AbsI(m[6].alt - W.alt) > 2500 THEN m[2] ELSE @, !.alt = m[6].alt]
               [] m[1] = "rng" -> [W EXCEPT !.rbad = IF m[4] < 1 \/ m[3] < 300 \/ m[3] > 25000 \/ m[2] - @ < 0 THEN m[2] ELSE @, !.gap = IF m[2] - W.rlast > 150000 /\ W.rlast # LongAgo THEN m[2] ELSE @, !.rlast = m[2], !.rjump = IF AbsI(m[3] - W.dist) > 800 THEN m[2] ELSE @, !.dist = m[3]]
               [] OTHER -> W, d, k + 1, lastGps, p)
Bools(must, may) == IF must THEN {TRUE} ELSE IF may THEN {TRUE, FALSE} ELSE {FALSE}
Srcs(r) == ToSet(r.cs) \cap Sources
TheSrc(r) == CHOOSE s \in Srcs(r) : TRUE
Aiding(cs) == cs \cap {"gps", "opt_flow", "ev_pos", "ev_vel"} # {} \/ {"fuse_aspd", "fuse_beta"} \subseteq cs
Probation == 10000000
Attempt(p, r, s) == CASE s = "baro_hgt" -> p.in.baro.x # r.in.baro.x [] s = "gps_hgt" -> p.in.gps.xv # r.in.gps.xv /\ r.in.gps.v[6] # 0 [] s = "rng_hgt" -> p.in.rng.x # r.in.rng.x [] OTHER -> p.in.ev.xv # r.in.ev.xv /\ r.in.ev.v[6] # 0
Tried(p, r) == {s \in Sources : Attempt(p, r, s)}
Pre == Is("p") /\ prev = None /\ I' = InStep(I, Ev.t, Ev.d, Unstarted).I /\ T' = Watch(T, Ev.d, 1, I'.S.gps.last, g) /\ UNCHANGED <<g, prev>>
First ==
  /\ Is("u") /\ prev = None
  /\ LET st == InStep(I, Ev.t, Ev.d, SNames \ {"flow"}) IN
     /\ I' = st.I
     /\ Chk(<<"one source", Srcs(Ev)>>, Cardinality(Srcs(Ev)) = 1)
     /\ Chk("starts on the barometer", "baro_hgt" \in Srcs(Ev) \/ g.vdist_sensor_type # 0 \/ g.range_aid = 1)
     /\ T' = [Watch(T, Ev.d, 1, st.I.S.gps.last, g) EXCEPT !.f = Ev.t, !.clear = Ev.t]
  /\ prev' = Ev /\ UNCHANGED g
Step ==
  /\ Is("u") /\ prev # None
  /\ LET r == Ev p == prev t == r.t
         cs == ToSet(r.cs) was == ToSet(p.cs) air == "in_air" \in cs
         st == InStep(I, t, r.d, SNames \ {"flow"})
         W == Watch(T, r.d, 1, st.I.S.gps.last, g)
         vd == g.vdist_sensor_type
         (* the origin found in this period may make GNSS the height source before the step *)
         org == r.ogn /\ ~p.ogn /\ vd = 1
         start == IF org THEN "gps_hgt" ELSE TheSrc(p)
         bad == "bad_acc_vertical" \in ToSet(r.fs)
         trouble == t < Probation - 900000                   \* the memory of bad accelerations starts full
         baro == Fresh(st.new["baro"], 400000, t)
         gpsInt == ~Fresh(st.new["gps"], 1000000, t)
         sureRng == W.rbad = LongAgo /\ W.gap = LongAgo /\ t > 6000000 /\ t - W.rlast < 100000 /\ ToSet(r.cs) \cap {"tilt_align"} # {}
         noRng == t - W.rlast > 1200000
         rngH == Bools(sureRng, ~noRng)
         sureOk == t - W.fail > 11000000 /\ t - W.pass > 11000000 /\ t - W.msg < 1000000
         noOk == W.fail = W.msg \/ W.pass = LongAgo
         cond == [baro |-> baro, gpsInt |-> gpsInt, acc |-> W.acc, bad |-> bad, cons |-> {TRUE, FALSE}, rng |-> rngH, ev |-> Fresh(st.left["ev"], 400000, t),
                  aid |-> IF g.range_aid = 1 /\ air /\ ~noRng /\ r.tv /\ r.tp - r.vp[6] < g.max_hagl_for_range_aid + 500 /\ (Aiding(cs) => AbsI(r.vp[1]) <= g.max_vel_for_range_aid + 800 /\ AbsI(r.vp[2]) <= g.max_vel_for_range_aid + 800) THEN {TRUE, FALSE} ELSE {FALSE},
                  rd |-> IF st.ready["rng"] THEN rngH ELSE {FALSE}, br |-> st.ready["baro"], gr |-> st.ready["gps"], er |-> st.ready["ev"],
                  ok |-> FALSE, evNow |-> st.I.S.ev.last # NEVER /\ Fresh(st.I.S.ev.last, 400000, t)]
         long == Over(T.f, Wait, t)
         shake == bad /\ Over(T.clear, g.bad_acc_reset_delay_us, t)        \* possibly bad without a break for the configured delay
         f == TheSrc(r)
         Rs == (r.rc[4] - p.rc[4] + 256) % 256
         said == "height_sensor_timeout" \in ToSet(r.we)
         Fits(out, m, ok) ==
            LET c == [cond EXCEPT !.ok = ok] evs == f = "ev_hgt" /\ m.src # "ev_hgt"
                tried == Tried(p, r)
            IN /\ f \in Stage2(vd, start, m, c)
               /\ said = m.reset
               /\ Rs = (IF m.reset THEN 1 ELSE 0) + (IF evs THEN 1 ELSE 0)
               /\ tried \subseteq {f}
               /\ (tried # {} => \/ May(vd, f, m, c, air) \/ (f = "ev_hgt" /\ vd = 3 /\ (StaleVision \/ evs)))
               /\ ((Must(vd, f, m, c, TRUE \in c.aid) /\ ~m.reset) => (f \in tried \/ (f = "ev_hgt" /\ T.evt)))     \* two measurements in a row may look alike
               /\ ((f = "rng_hgt" /\ vd = 2 /\ c.rd = {TRUE} /\ ~m.reset) => f \in tried)
               /\ ((m.reset /\ f = "baro_hgt" /\ m.src = f) => ~m.faulty)
         Outs == IF long THEN {TRUE} ELSE IF shake THEN {TRUE, FALSE} ELSE {FALSE}
         Oks == Bools(sureOk, ~noOk)
         Ms(out) == UNION {Stage1(start, out, [cond EXCEPT !.bad = b]) : b \in (IF trouble THEN {bad, TRUE} ELSE {bad})}
         fused == Tried(p, r) # {} /\ "reject_ver_pos" \notin ToSet(r.nf)
         (* reference of the barometer, 1e-3 m: measured while it is used, filtered while it is not *)
         usedB == "baro_hgt" \in Tried(p, r)
         meas == p.vp[6] + r.bh - ((r.in.baro.i[1] + 5) \div 10)
         dt == IF r.bt - p.bt > 1000000 THEN 1000 ELSE (r.bt - p.bt) \div 1000
         rate == Clamp(((r.bh + r.vp[6]) - T.base) \div 10, 100)
     IN /\ I' = st.I
        /\ Chk(<<"one source", Srcs(r)>>, Cardinality(Srcs(r)) = 1)
        /\ Chk(<<"time-out", start, f, [since |-> t - T.f, long |-> long, shake |-> shake, rs |-> Rs, said |-> said, tried |-> Tried(p, r), rngH |-> rngH, acc |-> W.acc, oks |-> Oks, aid |-> cond.aid], vd,
                 [b |-> baro, gi |-> gpsInt, ev |-> cond.ev, now |-> cond.evNow, br |-> cond.br, gr |-> cond.gr, er |-> cond.er, rr |-> st.ready["rng"], bad |-> bad]>>,
               \E out \in Outs : \E ok \in Oks : \E m \in Ms(out) : Fits(out, Stopped(m, "gps" \in was /\ "gps" \notin cs), ok))
        (* continuity: nothing moves at a change of source, the first measurements of the new one agree with the height *)
        /\ (f # TheSrc(p) /\ Rs = 0) => Chk(<<"height kept", p.vp, r.vp>>, AbsI(r.vp[6] - (p.vp[6] + p.vp[3] \div 100)) <= 150 + (IF p.in.gps.x # r.in.gps.x \/ p.in.ev.x # r.in.ev.x THEN 2000 ELSE 0) + (CASE Tried(p, r) = {} -> 0 [] f = "baro_hgt" -> AbsI(r.in.baro.i[1]) [] f = "rng_hgt" -> AbsI(r.in.rng.i[1]) [] f = "gps_hgt" -> AbsI(r.in.gps.i[6]) [] OTHER -> AbsI(r.in.ev.i[6])) \div 10)
        /\ (f # TheSrc(p) /\ Rs = 0 /\ f = "rng_hgt" /\ f \in Tried(p, r) /\ air /\ vd # 2 /\ t - W.rjump > 8000000) => Chk(<<"range referred to the height", r.in.rng.i>>, AbsI(r.in.rng.i[1]) <= 10000)
        /\ (f = "gps_hgt" /\ Rs = 0 /\ f \in Tried(p, r) /\ T.switch # LongAgo /\ t - W.jump > 3000000) => Chk(<<"GNSS referred to the height", r.in.gps.i>>, AbsI(r.in.gps.i[6]) <= 60000)
        /\ (f = "baro_hgt" /\ usedB /\ T.known /\ TheSrc(p) # "baro_hgt" /\ Rs = 0 /\ "gnd_effect" \notin cs) => Chk(<<"barometer referred to the height", meas, T>>, AbsI(meas - T.base) <= 500 + T.slack)
        /\ T' = [W EXCEPT !.f = IF fused \/ said THEN t ELSE @,
                          !.clear = IF bad THEN @ ELSE t, !.evt = "ev_hgt" \in Tried(p, r),
                          !.base = IF usedB THEN meas ELSE IF f # "baro_hgt" /\ r.bt # p.bt THEN @ + (rate * dt) \div 1000 ELSE @,
                          !.known = IF Rs > 0 THEN FALSE ELSE IF usedB THEN "gnd_effect" \notin cs ELSE @,
                          !.slack = IF usedB THEN 0 ELSE IF f # "baro_hgt" /\ r.bt # p.bt THEN @ + 1 + (rate * dt) \div 20000 ELSE @,
                          !.switch = IF f # "gps_hgt" \/ Rs > 0 THEN LongAgo ELSE IF TheSrc(p) # "gps_hgt" THEN t ELSE IF "gps_hgt" \in Tried(p, r) THEN LongAgo ELSE @]
  /\ prev' = Ev /\ UNCHANGED g
Next == New \/ Par \/ Pre \/ First \/ Step \/ Call
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
