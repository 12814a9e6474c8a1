------------------------------- MODULE Resets -------------------------------
(* State resets as seen by a user of the estimator: a counter (modulo Wrap) and the size of the latest change.                     *)
EXTENDS Integers, Sequences
CONSTANT Wrap
AbsV(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == AbsV(a - b) <= tol
(* counter steps between two looks *)
Inc(c0, c1) == ((c1 - c0 + Wrap) % Wrap)
(* how a reset of the filter state reaches counter, report and current-time outputs *)
ResetTo(S, x) == [S EXCEPT !.x = x, !.n = (@ + 1) % Wrap, !.d = x - S.x, !.out = [k \in 1..Len(S.out) |-> S.out[k] + (x - S.x)]]
(* one observed step of one axis: c0/c1 counter, d1 reported change, moved = state change not explained by motion *)
AxisOK(c0, c1, d0, d1, moved, outmoved, tol, outtol) ==
  LET k == Inc(c0, c1) IN
  IF k = 0 THEN d1 = d0 /\ AbsV(outmoved) <= outtol
  ELSE IF k = 1 THEN Near(moved, d1, tol) /\ Near(outmoved, d1, outtol)
  ELSE Near(outmoved, moved, tol + outtol)
=============================================================================
