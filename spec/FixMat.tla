------------------------------- MODULE FixMat -------------------------------
(* 3-vectors and 3x3 matrices (row-major 9-tuples) over fixed-point integers. *)
(* Matrices of rotations carry scale RS.                                      *)
EXTENDS Integers, Sequences
RS == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* division rounding to nearest *)
RDiv(a, b) == IF a >= 0 THEN (a + (b \div 2)) \div b ELSE -(((-a) + (b \div 2)) \div b)
Near(a, b, tol) == Abs(a - b) <= tol
I3 == <<RS, 0, 0, 0, RS, 0, 0, 0, RS>>
MT(A) == <<A[1], A[4], A[7], A[2], A[5], A[8], A[3], A[6], A[9]>>
MM(A, B) == [k \in 1..9 |-> LET r == ((k - 1) \div 3) * 3
                                c == ((k - 1) % 3) + 1
                            IN RDiv(A[r + 1] * B[c] + A[r + 2] * B[c + 3] + A[r + 3] * B[c + 6], RS)]
MV(A, v) == <<RDiv(A[1] * v[1] + A[2] * v[2] + A[3] * v[3], RS),
              RDiv(A[4] * v[1] + A[5] * v[2] + A[6] * v[3], RS),
              RDiv(A[7] * v[1] + A[8] * v[2] + A[9] * v[3], RS)>>
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VHalf(a) == <<RDiv(a[1], 2), RDiv(a[2], 2), RDiv(a[3], 2)>>
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
=============================================================================
