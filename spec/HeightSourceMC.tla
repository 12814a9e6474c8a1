--------------------------- MODULE HeightSourceMC ---------------------------
(* Every sequence of losses, faults and returns of the four sources, one step per second. *)
EXTENDS HeightSource, TLC
CONSTANTS Modes
Names == {"baro", "gps", "rng", "ev"}
States == {"ok", "bad", "gone"}     \* bad: arriving, but every measurement refused
VARIABLES vd, src, age, st, aid, lost, why
vars == <<vd, src, age, st, aid, lost, why>>
Name(s) == CASE s = "baro_hgt" -> "baro" [] s = "gps_hgt" -> "gps" [] s = "rng_hgt" -> "rng" [] OTHER -> "ev"
Here(n) == st[n] # "gone"
Init == vd \in Modes /\ src = "baro_hgt" /\ age = 0 /\ st \in [Names -> States] /\ aid = FALSE /\ lost = 0 /\ why = "start"
C == [baro |-> Here("baro"), gpsInt |-> ~Here("gps"), acc |-> Here("gps"), bad |-> FALSE, cons |-> {TRUE, FALSE}, rng |-> {Here("rng")}, ev |-> Here("ev"),
      aid |-> {aid}, rd |-> {Here("rng")}, br |-> Here("baro"), gr |-> Here("gps"), er |-> Here("ev"), ok |-> st["gps"] = "ok", evNow |-> Here("ev")]
Step ==
  \E m0 \in Stage1(src, age >= 5, C) : \E stop \in BOOLEAN : LET m == Stopped(m0, stop) IN \E f \in Stage2(vd, src, m, C) :
    LET used == (May(vd, f, m, C, TRUE) /\ Must(vd, f, m, C, FALSE)) \/ (f = "rng_hgt" /\ Here("rng"))
        evs == f = "ev_hgt" /\ m.src # "ev_hgt"
        good == used /\ st[Name(f)] = "ok"
    IN /\ src' = f
       /\ age' = IF good \/ m.reset \/ evs THEN 0 ELSE IF age < 6 THEN age + 1 ELSE age
       /\ lost' = IF good \/ m.reset \/ evs \/ age < 5 THEN 0 ELSE IF lost < 3 THEN lost + 1 ELSE lost
       /\ why' = IF m # m0 THEN "stop" ELSE IF m.reset THEN "reset" ELSE IF f # src THEN "select" ELSE "same"
       /\ \E n \in Names, x \in States : st' = [st EXCEPT ![n] = x]
       /\ aid' \in (IF vd \in {0, 1} /\ Here("rng") THEN BOOLEAN ELSE {FALSE})
       /\ UNCHANGED vd
Next == Step
Spec == Init /\ [][Next]_vars
One == src \in Sources
(* without a fused height for the waiting time there is a reset, unless the active source and its substitutes are silent *)
Served == age > 5 => lost > 0
NoWait == lost > 0 => age >= 5
(* a silent source is not kept over a time-out when its substitute works *)
Left == [][age >= 5 /\ ~Here(Name(src)) /\ (IF src = "baro_hgt" THEN Here("gps") ELSE Here("baro")) => (why' = "stop" \/ src' # src \/ Here(Name(src)))]_vars
(* resets go to a source that delivers *)
Usable == [][why' = "reset" /\ src' # "baro_hgt" => Here(Name(src')) \/ src' = src]_vars
=============================================================================
