---------------------------- MODULE HeightSource ----------------------------
(* Which measurement the height follows, and what happens when it fails.  Times in us. *)
EXTENDS Integers, FiniteSets
Sources == {"baro_hgt", "gps_hgt", "rng_hgt", "ev_hgt"}
Wait == 5000000
(* primary source by configuration: 0 barometer, 1 GNSS, 2 range finder, 3 vision *)
Over(last, wait, t) == last + wait < t
Fresh(stamp, age, t) == stamp + age > t
(* Time-out stage.  c: baro (not faulty), gpsInt (GNSS intermittent), acc (GNSS accurate), bad (vertical acceleration bad in the last seconds),
   cons: possible answers to "barometer consistent", rng: possible answers to "range finder healthy", ev (vision recent) *)
Keep(s, faulty) == [src |-> s, reset |-> FALSE, faulty |-> faulty]
To(s, faulty) == [src |-> s, reset |-> TRUE, faulty |-> faulty]
Stage1(s, out, c) ==
  LET f == ~c.baro IN
  IF ~out THEN {Keep(s, f)}
  ELSE CASE s = "baro_hgt" -> {IF ~c.gpsInt /\ ((c.acc /\ ~c.bad) \/ f) THEN To("gps_hgt", TRUE) ELSE IF ~f THEN To("baro_hgt", f) ELSE Keep(s, f)}
         [] s = "gps_hgt" -> {IF ~f /\ ((k /\ ~c.acc) \/ c.gpsInt) THEN To("baro_hgt", f) ELSE IF ~c.gpsInt THEN To("gps_hgt", f) ELSE Keep(s, f) : k \in c.cons}
         [] s = "rng_hgt" -> {IF h THEN To("rng_hgt", f) ELSE IF ~f THEN To("baro_hgt", f) ELSE Keep(s, f) : h \in c.rng}
         [] OTHER -> {IF c.ev THEN To("ev_hgt", f) ELSE IF ~f THEN To("baro_hgt", f) ELSE Keep(s, f)}
(* GNSS aiding stopped in between: its height is given up for the barometer's *)
Stopped(m, stop) == IF stop /\ m.src = "gps_hgt" THEN [m EXCEPT !.src = "baro_hgt"] ELSE m
(* Selection stage.  start: source at the start of the step; aid, rd: possible answers to "range aid suitable", "range reading usable now";
   br: barometer reading due; ok: GNSS checks passed; evNow: vision arriving *)
Stage2(vd, start, m, c) ==
  LET s == m.src IN
  CASE vd = 0 -> UNION {{IF a /\ d THEN "rng_hgt" ELSE IF ~a /\ c.br /\ ~m.faulty THEN "baro_hgt" ELSE s : a \in c.aid} : d \in c.rd}
    [] vd = 2 -> {IF d THEN "rng_hgt" ELSE s : d \in c.rd}
    [] vd = 1 -> UNION {{IF start # "rng_hgt" /\ a /\ d THEN "rng_hgt"
                         ELSE IF start = "rng_hgt" /\ ~a THEN (IF ~c.gpsInt /\ c.ok THEN "gps_hgt" ELSE IF ~m.faulty THEN "baro_hgt" ELSE s)
                         ELSE IF s = "baro_hgt" /\ ~a /\ ~c.gpsInt /\ c.ok THEN "gps_hgt" ELSE s : a \in c.aid} : d \in c.rd}
    [] OTHER -> {IF s # "ev_hgt" /\ c.evNow THEN "ev_hgt" ELSE s}
(* may / must a height measurement be used in this step *)
May(vd, f, m, c, air) ==
  CASE f = "baro_hgt" -> c.br /\ ~m.faulty
    [] f = "gps_hgt" -> c.gr /\ vd \in {0, 1}
    [] f = "rng_hgt" -> TRUE \in c.rd \/ ~air
    [] OTHER -> vd = 3 /\ c.er
Must(vd, f, m, c, aiding) ==
  CASE f = "baro_hgt" -> c.br /\ ~m.faulty /\ (vd # 0 \/ ~aiding)
    [] f = "gps_hgt" -> c.gr /\ (vd = 1 \/ (vd = 0 /\ ~c.gpsInt /\ ~aiding))
    [] f = "ev_hgt" -> vd = 3 /\ c.er
    [] OTHER -> FALSE
=============================================================================
