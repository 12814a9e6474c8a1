---------------------------- MODULE StatusTrace ----------------------------
(* Recorded flights: the reported words and ratios. *)
EXTENDS Integers, Sequences, Status, Why, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen
vars == <<l, seen>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
AbsI(x) == IF x < 0 THEN -x ELSE x
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Init == l = 1 /\ seen = {}
Other == (Is("new") \/ Is("par") \/ Is("call") \/ Is("p")) /\ UNCHANGED seen
(* square of a reported ratio (1e-4) against a test ratio (1e-4) *)
Root(x, ratio) == IF x > 400000 \/ ratio > 15000000 THEN x > 350000 /\ ratio > 12000000 ELSE AbsI(((x \div 10) * (x \div 10)) \div 100 - ratio) <= 3 + (x \div 100) + ratio \div 500
Bools(must, may) == IF must THEN {TRUE} ELSE IF may THEN {TRUE, FALSE} ELSE {FALSE}
Over(x) == Bools(x > 10003, x >= 9997)
Step ==
  /\ Is("u")
  /\ \E cs \in {ToSet(Ev.cs)} : \E fs \in {ToSet(Ev.fs)} : \E nf \in {ToSet(Ev.nf)} :
     LET r == Ev i == r.in
         badv == Over(Most(i.gps.r[1], i.gps.r[2])) badp == Over(i.gps.r[3])
         good == {~m : m \in Over(Most(i.mag.r[1], i.hdg.r[1]))}
         glitch == {(a \/ b) /\ m : a \in badv, b \in badp, m \in good}
         hgt == IF "baro_hgt" \in cs THEN i.baro.r[1] ELSE IF "gps_hgt" \in cs THEN i.gps.r[4] ELSE IF "rng_hgt" \in cs THEN i.rng.r[1] ELSE i.ev.r[4]
     IN /\ Chk(<<"solution status", Solution(cs, fs, r.tv, FALSE), r.sol>>, r.sol \in {Word(Solution(cs, fs, r.tv, x), SolBits) : x \in glitch})
        /\ Chk(<<"innovation status", nf, r.its>>, r.its = Word(nf, FailBits))
        /\ Chk("one height", cs \cap {"baro_hgt", "gps_hgt", "rng_hgt", "ev_hgt"} # {})
        /\ Chk(<<"magnetometer", r.itr[1], i.mag.r, i.hdg.r>>, Root(r.itr[1], Most(i.mag.r[1], i.hdg.r[1])))
        /\ Chk(<<"velocity", r.itr[2], i.gps.r, i.ev.r>>, Root(r.itr[2], Most(Most(i.gps.r[1], i.gps.r[2]), Most(i.ev.r[1], i.ev.r[2]))))
        /\ Chk(<<"position", r.itr[3], i.gps.r, i.ev.r>>, Root(r.itr[3], Most(i.gps.r[3], i.ev.r[3])))
        /\ Chk(<<"height", cs, r.itr[4], hgt>>, Root(r.itr[4], hgt))
        /\ Chk(<<"airspeed", r.itr[5], i.tas.r>>, Root(r.itr[5], i.tas.r[1]))
        /\ Chk(<<"terrain", r.itr[6], i.hagl.r>>, Root(r.itr[6], i.hagl.r[1]))
        /\ Chk(<<"sideslip", r.itr[7], i.beta.r>>, Root(r.itr[7], i.beta.r[1]))
        /\ seen' = seen \cup {r.sol}
Next == Other \/ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
