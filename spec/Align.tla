-------------------------------- MODULE Align --------------------------------
(* Starting the filter and aligning it: which data must have been seen before it runs, from which attitude and height it starts, and when tilt and yaw count as aligned.
   Accelerations 1e-3 m/s^2, rates 1e-4 rad/s, heights mm, variances 1e-7 rad^2. *)
EXTENDS Integers, Sequences
AbsA(x) == IF x < 0 THEN -x ELSE x
Round(x, d) == IF x >= 0 THEN (x + d \div 2) \div d ELSE -(((-x) + d \div 2) \div d)
Blend(old, new) == old + Round(new - old, 10)                 \* weight 0.1
Sq(x) == x * x
Norm2(v) == Sq(v[1]) + Sq(v[2]) + Sq(v[3])
Fresh == [n |-> 0, a |-> <<0, 0, 0>>, g |-> <<0, 0, 0>>, mag |-> 0, baro |-> 0, h |-> 0]
(* one filter period before the start: inertial sample and the measurements that reached the horizon *)
Gather(A, acc, gyr, mag, baro, hgt) ==
  [n |-> IF A.n < 1000 THEN A.n + 1 ELSE A.n,
   a |-> IF A.n = 0 THEN acc ELSE [k \in 1..3 |-> Blend(A.a[k], acc[k])],
   g |-> IF A.n = 0 THEN gyr ELSE [k \in 1..3 |-> Blend(A.g[k], gyr[k])],
   mag |-> IF mag THEN A.mag + 1 ELSE A.mag,
   baro |-> IF baro THEN A.baro + 1 ELSE A.baro,
   h |-> IF ~baro THEN A.h ELSE IF A.baro = 0 THEN hgt ELSE Blend(A.h, hgt)]
UsesMag(type) == type <= 2                       \* automatic, heading, three axes
Counted(A, need, type) == A.baro >= need /\ (UsesMag(type) => A.mag >= need)
Gee == 9807
(* within 0.8 .. 1.2 g and 15 deg/s, narrowed (s > 0) or widened (s < 0) by s *)
Still(A, s) == LET lo == (Gee * 8) \div 10 + s hi == (Gee * 12) \div 10 - s w == 2618 - 5 * s
               IN Norm2(A.a) >= Sq(lo) /\ Norm2(A.a) <= Sq(hi) /\ Norm2(A.g) <= Sq(w)
MayStart(A, need, type, tol) == Counted(A, need, type) /\ Still(A, -tol)
MustStart(A, need, type, tol) == Counted(A, need, type) /\ Still(A, tol)
(* three degrees, squared *)
TiltLimit == 27416
TiltKnown(v) == v < TiltLimit
=============================================================================
