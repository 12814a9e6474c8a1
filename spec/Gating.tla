------------------------------- MODULE Gating -------------------------------
(* What happens to one measurement: its test ratio, its failure flag and its effect on the estimate.
   n: squared innovation over innovation variance, x1000; g: gate x100; ratios x10000. *)
EXTENDS Integers
Least1(g) == IF g < 100 THEN 100 ELSE g
Mx(a, b) == IF a > b THEN a ELSE b
AbsI(x) == IF x < 0 THEN -x ELSE x
(* the ratio, x1000 *)
RawRatio(n, h) == (((n * 100) \div h) * 100) \div h
Ratio(n, g) == RawRatio(n, Least1(g))
RawRatioOK(r, n, h) == n <= 5000000 => LET e == RawRatio(n, h) IN AbsI((r \div 10) - e) <= 3 + e \div 300 + 20000 \div (h * h) + 200 \div h
RatioOK(r, n, g) == n <= 20000000 => RawRatioOK(r, n, Least1(g))
Rejected(r) == r > 10000
(* in doubt near the limit (recorded values are rounded) *)
Sure(r) == r < 9999 \/ r > 10002
(* the flag after a measurement was considered *)
FlagOK(r, flag) == Sure(r) => (flag <=> Rejected(r))
=============================================================================
