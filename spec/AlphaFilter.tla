----------------------------- MODULE AlphaFilter -----------------------------
(* First-order low pass.  Values in fixed point; the weight a has scale AS. *)
EXTENDS FixMat
AS == 10000
VARIABLES s, a
avars == <<s, a>>
Blend(old, x, w) == old + RDiv((x - old) * w, AS)
Weight(dt, tc) == RDiv(dt * AS, dt + tc)
Init == s = 0 /\ a = 0
Update(x) == s' = Blend(s, x, a) /\ UNCHANGED a
Reset(x) == s' = x /\ UNCHANGED a
SetAlpha(w) == a' = w /\ UNCHANGED s
SetParameters(dt, tc) == a' = (IF dt + tc > 0 THEN Weight(dt, tc) ELSE a) /\ UNCHANGED s
Between(v, p, q) == (v >= p /\ v <= q) \/ (v >= q /\ v <= p)
=============================================================================
