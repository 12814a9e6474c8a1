------------------------------- MODULE WindMC -------------------------------
(* Every history of airspeed, sideslip, flight, synthetic position and selection; a unit per step. *)
EXTENDS Wind, TLC
CONSTANTS Every
VARIABLES w, age, broken
vars == <<w, age, broken>>
Cap == Lost + 2
Old(x) == IF x >= Cap THEN Cap ELSE x + 1
(* ages since: sup (a measurement accepted, or a start), tas (airspeed accepted, or a start with it), air (in flight) *)
Init == w = [on |-> FALSE, aspd |-> FALSE, ar |-> 0 - Cap, be |-> 0 - Cap] /\ age = [sup |-> Cap, tas |-> Cap, air |-> Cap] /\ broken = {}
(* refused samples and samples that never came differ only in a start *)
Cs == {k \in [syn : BOOLEAN, tas : BOOLEAN, air : BOOLEAN, beta : BOOLEAN, drag : BOOLEAN, yaw : BOOLEAN, tasOk : BOOLEAN, betaOk : BOOLEAN, every : {Every}] :
         (k.tasOk => k.tas) /\ (k.betaOk => k.beta) /\ (k.yaw \/ k.drag)}
(* time is relative: now is 0, last times are negative ages *)
Aged(v) == [v EXCEPT !.ar = 0 - Old(0 - @), !.be = 0 - Old(0 - @)]
If(c, x) == IF c THEN {} ELSE {x}
Step == \E k \in Cs :
  \E v \in {Aged(w)} : \E n \in {WindStep(v, k, 0)} : \E s \in {Start(v, k, 0)} :
  LET sup == IF s \in {"tas", "beta"} \/ (WantsTas(k) /\ k.tasOk) \/ n.be = 0 THEN 0 ELSE Old(age.sup)
      tas == IF s = "tas" \/ (WantsTas(k) /\ k.tasOk) THEN 0 ELSE Old(age.tas)
      air == IF k.air THEN 0 ELSE Old(age.air)
  IN /\ w' = n /\ age' = [sup |-> sup, tas |-> tas, air |-> air]
     /\ broken' = If(n.on => (sup <= Lost \/ k.drag), "supported") \cup If(n.on => ~k.syn, "real") \cup If(n.aspd => tas <= Lost, "airspeed")
                  \cup If((n.on /\ ~k.drag) => air <= Lost, "flying") \cup If((sup > Lost /\ ~k.drag) => ~n.on, "ended")
                  \cup If((w.on /\ ~k.syn /\ Old(age.sup) <= Lost) => (n.on /\ s = "none"), "kept")
                  \cup If((s # "none") => (n.on /\ ~k.syn /\ k.air /\ (CASE s = "tas" -> k.tas [] s = "beta" -> k.beta [] OTHER -> k.drag)), "starts")
                  \cup If((n.on /\ ~w.on) => s # "none", "started anew")
Spec == Init /\ [][Step]_vars
Sound == broken = {}
=============================================================================
