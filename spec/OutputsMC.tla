----------------------------- MODULE OutputsMC -----------------------------
(* The delay line with every short pattern of motion and disturbances: the
   outputs on the way from the horizon to now, relative to the state at the
   horizon; motion never disturbs the tracking, a disturbance decays. *)
EXTENDS Outputs
CONSTANTS Depth, Gains, Periods, Overshoot, Rest, Wide
VARIABLES buf, us, c, g, e0, n, jumped, broken
vars == <<buf, us, c, g, e0, n, jumped, broken>>
Moves == IF Wide THEN {-300, 0, 500} ELSE {0, 500}
Errs == IF Wide THEN {-50000, -900, 0, 70, 20000, 100000} ELSE {-50000, 0, 300}
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _, _)
Sum(q, i, j) == IF i > j THEN 0 ELSE q[i] + Sum(q, i + 1, j)
(* us: motion between the entries of buf *)
At(e, u) == [k \in 1..Depth |-> Sum(u, 1, k - 1) - e]
Init == /\ g \in Gains /\ c = 0 /\ n = 0 /\ jumped = FALSE /\ broken = {}
        /\ us = [k \in 1..(Depth - 1) |-> 0]
        /\ \E e \in Errs : buf = At(e, us) /\ e0 = AbsI(e)
Ok(name, p) == IF p THEN {} ELSE {name}
Step(u) ==
  LET passed == us[1]                                   \* the state at the horizon moves by this
      us1 == Append(Tail(us), u)
      b1 == [k \in 1..Depth |-> (IF k < Depth THEN buf[k + 1] ELSE buf[Depth] + u) - passed]
      err == -b1[1]
      d == Correction(c, err, g)
      b2 == [k \in 1..Depth |-> b1[k] + d]
  IN /\ buf' = b2 /\ us' = us1 /\ c' = IntegralPart(c, err, g) /\ n' = n + 1
     /\ broken' = broken \cup Ok("now is the state plus the motion since", b2[Depth] = Sum(us1, 1, Depth - 1) + b2[1])
          \cup Ok("motion does not disturb", err = -buf[1])
          \cup Ok("same rate", b2[Depth] - buf[Depth] = u - passed + d)
     /\ UNCHANGED <<g, e0, jumped>>
(* a reset moves state and outputs together; a disturbance moves the state alone *)
Disturb == ~jumped /\ n \in {6, 25} /\ jumped' = TRUE
           /\ \E e \in Errs : buf' = [k \in 1..Depth |-> buf[k] - e] /\ e0' = AbsI(e) + AbsI(buf[1]) + AbsI(c) \div 3
           /\ n' = 0 /\ UNCHANGED <<us, c, g, broken>>
Next == (n < Periods /\ \E u \in Moves : Step(u)) \/ Disturb
Spec == Init /\ [][Next]_vars
Sound == broken = {}
Contained == AbsI(buf[1]) <= e0 + ((e0 * Overshoot) \div 100) + Rest
Decays == (n = Periods) => AbsI(buf[1]) <= Rest + (e0 \div 4)
=============================================================================
