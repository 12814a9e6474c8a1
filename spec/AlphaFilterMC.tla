---------------------------- MODULE AlphaFilterMC ----------------------------
(* Every short history over a small value grid: updates never overshoot, weights stay in [0,1] for
   non-negative parameters, a constant input is approached monotonically. *)
EXTENDS AlphaFilter
VARIABLES last, n
Vals == {-40, 0, 10, 40}
MCInit == Init /\ last = [op |-> "none", x |-> 0, old |-> 0] /\ n = 0
Log(o, x) == last' = [op |-> o, x |-> x, old |-> s] /\ n' = n + 1
MCNext == n < 6 /\
   \/ \E x \in Vals : Update(x) /\ Log("upd", x)
   \/ \E x \in Vals : Reset(x) /\ Log("reset", x)
   \/ \E w \in {0, 2500, 10000} : SetAlpha(w) /\ Log("alpha", w)
   \/ \E dt \in {0, 1, 4}, tc \in {-4, 0, 1, 10} : (dt + tc # 0 => (tc >= 0 \/ dt + tc < 0)) /\ SetParameters(dt, tc) /\ Log("par", dt)
MCSpec == MCInit /\ [][MCNext]_<<avars, last, n>>
WeightOK == a >= 0 /\ a <= AS
NoOvershoot == last.op = "upd" => Between(s, last.old, last.x)
ResetExact == last.op = "reset" => s = last.x
ParKeepsState == last.op \in {"alpha", "par"} => s = last.old
FullWeight == (last.op = "upd" /\ a = AS) => s = last.x
ZeroWeight == (last.op = "upd" /\ a = 0) => s = last.old
=============================================================================
