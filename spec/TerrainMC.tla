------------------------------ MODULE TerrainMC ------------------------------
(* Every history of flight, range and flow readings, vehicle height and terrain on a small grid. *)
EXTENDS Terrain, TLC
CONSTANTS Top           \* heights 0 .. Top (down)
VARIABLES k, age, pos, tp, broken
vars == <<k, age, pos, tp, broken>>
Cap == Again + 2
Old(x) == IF x >= Cap THEN Cap ELSE x + 1
Aged(x) == [x EXCEPT !.hagl = 0 - Old(0 - @), !.flow = 0 - Old(0 - @)]
(* ages since: range accepted or starting, flow taken or starting, on the ground, start; s: range and flow selected *)
Init == \E air \in BOOLEAN : k = StartTerrain(air, 0) /\ age = [range |-> Cap, flow |-> Cap, ground |-> IF air THEN Cap ELSE 0, start |-> 0] /\ pos = 0 /\ tp = 1 /\ broken = {}
If(c, x) == IF c THEN {} ELSE {x}
Step == \E air, useR, useF, gps, of \in BOOLEAN, range \in {"none", "ok", "refused"}, fl \in {"none", "taken", "refused"}, p2 \in {pos - 1, pos, pos + 1} \cap (0 .. Top), m \in 1..2 :
  \E a \in {Aged(k)} : \E flow \in {IF FlowServes(a, gps, of, air, 0) THEN fl ELSE "none"} :
  \E c \in {[air |-> air, useR |-> useR, useF |-> useF, range |-> range, flow |-> flow]} :
  \E n \in {TerrainStep(a, c, 0)} :
  LET begins == ~a.init \/ ~air
      rangeIn == air /\ useR /\ (range = "ok" \/ (begins /\ range # "none"))
      flowIn == air /\ useF /\ (flow = "taken" \/ (begins /\ ~(useR /\ range # "none") /\ flow # "none"))
      g == [range |-> IF rangeIn THEN 0 ELSE Old(age.range), flow |-> IF flowIn THEN 0 ELSE Old(age.flow), ground |-> IF ~air THEN 0 ELSE Old(age.ground), start |-> Old(age.start)]
      moved == IF ~air THEN p2 + 1 ELSE IF rangeIn \/ Replace(a, c, 0) THEN p2 + m ELSE tp
      out == IF ~n.init THEN tp ELSE Below(moved, p2, 1)
  IN /\ (flow # "none" \/ fl = "none")
     /\ k' = n /\ age' = g /\ pos' = p2 /\ tp' = out
     /\ broken' = If(Valid(n, 0) => (g.range < Fresh \/ g.flow < Fresh \/ g.ground < Fresh \/ g.start < Fresh), "valid by a measurement")
                  \cup If((g.range = 0 \/ g.flow = 0 \/ ~air) => Valid(n, 0), "measured is valid")
                  \cup If(ByRange(n, c, 0) => (g.range < Fresh \/ g.start < Fresh), "range bit")
                  \cup If((useR /\ g.range = 0) => ByRange(n, c, 0), "range in use")
                  \cup If(ByFlow(n, c, 0) => (g.flow < Fresh \/ g.start < Fresh), "flow bit")
                  \cup If(n.init => out >= p2 + 1, "below the vehicle")
                  \cup If(~air => (out = p2 + 1 /\ ~ByRange(n, c, 0)), "ground")
                  \cup If((flow # "none") => Old(age.range) > Fresh \/ ~a.init, "flow only without range")
Spec == Init /\ [][Step]_vars
Sound == broken = {}
=============================================================================
