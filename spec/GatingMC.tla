------------------------------ MODULE GatingMC ------------------------------
(* A filter estimating a scalar from two sensors with gates; two copies that see different readings of one sensor.  Checked over all small innovations, gates,
   clamping phases and interleavings: rejected readings never change the estimate, accepted ones do, flags tell which. *)
EXTENDS Gating, FiniteSets
CONSTANTS Top, Gates, Depth
VARIABLES x, y, flag, last, k, clampv
vars == <<x, y, flag, last, k, clampv>>
Sensors == {"a", "b"}
V == 1      \* innovation variance
NIS(i) == (i * i * 1000) \div V
R(i, g) == (NIS(i) * 10000) \div (((Least1(g) * Least1(g)) \div 10000) * 1000)
Root(g) == Least1(g) \div 100
Clamp(i, g) == IF i > Root(g) THEN Root(g) ELSE IF i < -Root(g) THEN -Root(g) ELSE i
Init == x = 0 /\ y = 0 /\ flag = [s \in Sensors |-> FALSE] /\ last = [s |-> "none", rx |-> 0, ry |-> 0, ox |-> 0, oy |-> 0, ix |-> 0, iy |-> 0] /\ k = 0 /\ clampv \in BOOLEAN
Consider(s, ix, iy, g) ==
  /\ k < Depth /\ k' = k + 1 /\ clampv' = clampv
  /\ LET rx == R(ix, g) ry == R(iy, g) IN
     /\ x' = IF ~Rejected(rx) THEN x - ix ELSE IF clampv THEN x - Clamp(ix, g) ELSE x
     /\ y' = IF ~Rejected(ry) THEN y - iy ELSE IF clampv THEN y - Clamp(iy, g) ELSE y
     /\ flag' = [flag EXCEPT ![s] = Rejected(rx) /\ ~clampv]
     /\ last' = [s |-> s, rx |-> rx, ry |-> ry, ox |-> x, oy |-> y, ix |-> ix, iy |-> iy]
Next == \E s \in Sensors, ix \in (-Top)..Top, iy \in (-Top)..Top, g \in Gates : Consider(s, ix, iy, g)
Spec == Init /\ [][Next]_vars
Unchanged == (last.s # "none" /\ ~clampv /\ Rejected(last.rx)) => x = last.ox
Changed == (last.s # "none" /\ ~Rejected(last.rx) /\ last.ix # 0) => x # last.ox
Twins == (last.s # "none" /\ ~clampv /\ last.ox = last.oy) => (x = y <=> (last.ix = last.iy \/ (Rejected(last.rx) /\ Rejected(last.ry)) \/ (Rejected(last.rx) /\ last.iy = 0) \/ (Rejected(last.ry) /\ last.ix = 0)))
Flags == last.s # "none" => (flag[last.s] <=> (Rejected(last.rx) /\ ~clampv))
=============================================================================
