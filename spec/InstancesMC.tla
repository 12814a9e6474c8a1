----------------------------- MODULE InstancesMC -----------------------------
(* Two instances fed the same history with arbitrary lag between them, a bystander fed anything, constructed in arbitrary memory.  Steps is an arbitrary
   deterministic machine.  With Shared = TRUE the machine uses a variable common to all instances, with Dirty = TRUE a member that construction leaves as it was:
   either breaks the property. *)
EXTENDS Instances, FiniteSets, TLC
CONSTANTS Shared, Dirty, Inputs, Depth
VARIABLES hist, pos, st, out, mem, common, by
vars == <<hist, pos, st, out, mem, common, by>>
M == 5
F(s, x, m) == (3 * s + 2 * x + m + 1) % M
Init == /\ hist = <<>> /\ pos = [i \in {1, 2} |-> 0] /\ out = [i \in {1, 2} |-> <<>>] /\ common = 0 /\ by = 0
        /\ mem \in [{1, 2} -> 0..1]
        /\ st = [i \in {1, 2} |-> 0]
Decide(x) == Len(hist) < Depth /\ hist' = Append(hist, x) /\ UNCHANGED <<pos, st, out, mem, common, by>>
Step(i) == /\ pos[i] < Len(hist)
           /\ LET x == hist[pos[i] + 1]
                  n == IF x = 0 THEN 0 ELSE F(st[i], x, (IF Dirty THEN mem[i] ELSE 0) + (IF Shared THEN common ELSE 0))      \* input 0: initialise again
              IN st' = [st EXCEPT ![i] = n] /\ out' = [out EXCEPT ![i] = Append(@, n)] /\ common' = (common + x) % 2
           /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ UNCHANGED <<hist, mem, by>>
Other(x) == by < 2 /\ by' = by + 1 /\ common' = (common + x) % 2 /\ UNCHANGED <<hist, pos, st, out, mem>>
Next == (\E x \in Inputs : Decide(x) \/ Other(x)) \/ \E i \in {1, 2} : Step(i)
Spec == Init /\ [][Next]_vars
Deterministic == \A k \in 1..Depth : (k <= Len(out[1]) /\ k <= Len(out[2])) => Same(out[1][k], out[2][k])
Reset == \A i \in {1, 2} : (pos[i] > 0 /\ hist[pos[i]] = 0) => st[i] = 0
=============================================================================
