------------------------------ MODULE ResetsMC ------------------------------
(* A user who follows the counter and applies the reported change keeps its own set-point consistent with the estimate; the outputs  *)
(* at the current time stay the delayed state plus the buffered motion.                                                              *)
EXTENDS Resets, FiniteSets
CONSTANTS Pos, MaxOut
VARIABLES S, seen, sp, rel, motion
vars == <<S, seen, sp, rel, motion>>
(* S.x delayed state, S.out outputs between horizon and now; motion: buffered increments; sp: user's set-point, rel: its true offset from the estimate *)
Sum(q) == LET f[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE f[i-1] + q[i] IN f[Len(q)]
Init == S = [x |-> 0, n |-> 0, d |-> 0, out |-> [k \in 1..MaxOut |-> 0]] /\ seen = 0 /\ sp = 1 /\ rel = 1 /\ motion = [k \in 1..MaxOut |-> 0]
Move == \E m \in {-1, 0, 1} :
          /\ AbsV(S.out[MaxOut] + m) <= 6
          /\ S' = [S EXCEPT !.x = @ + motion[1], !.out = Append(Tail(@), S.out[MaxOut] + m)]
          /\ motion' = Append(Tail(motion), m)
          /\ UNCHANGED <<seen, sp, rel>>
Reset == \E x \in Pos : S' = ResetTo(S, x) /\ UNCHANGED <<seen, sp, rel, motion>> /\ S.n = seen
Consume == S.n # seen /\ seen' = S.n /\ sp' = sp + S.d /\ UNCHANGED <<S, rel, motion>>
Next == Move \/ Reset \/ Consume
Spec == Init /\ [][Next]_vars
OutConsistent == S.out[MaxOut] = S.x + Sum(motion)
(* only the motion itself may change the offset between set-point and estimate *)
Counted == [][S'.n # S.n => Inc(S.n, S'.n) = 1]_vars
Reported == [][S'.n # S.n => (S'.x - S.x = S'.d /\ \A k \in 1..MaxOut : S'.out[k] - S.out[k] = S'.d)]_vars
NoHidden == [][S'.n = S.n => S'.d = S.d]_vars
SpFollows == [][S'.n # S.n => (seen = S.n)]_vars

Small == AbsV(sp) <= 12
=============================================================================
