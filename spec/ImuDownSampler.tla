--------------------------- MODULE ImuDownSampler ---------------------------
(* Accumulates raw IMU increments into samples of (on average) one target period. *)
(* Times in units of 10 ns, velocities in mm/s, rotations as matrices (FixMat).    *)
EXTENDS FixMat
CONSTANT Target
VARIABLES acc,      \* accumulated since the last retrieved output
          adj,      \* collection time adjustment
          retr,     \* the current accumulation has been retrieved: start afresh with the next raw sample
          sum       \* book-keeping: time received, time delivered, samples delivered, lost-by-clamp
imuvars == <<acc, adj, retr, sum>>

Zero == [ta |-> 0, tv |-> 0, clip |-> <<FALSE, FALSE, FALSE>>, R |-> I3, dv |-> <<0, 0, 0>>, t |-> 0, n |-> 0]
Init == acc = Zero /\ adj = 0 /\ retr = FALSE /\ sum = [rx |-> 0, tx |-> 0, n |-> 0, clamped |-> FALSE]

(* raw: [ta, tv, clip, R, dv, t] *)
Accum(a, raw) ==
  LET Rt == MT(raw.R) IN
  [ta |-> a.ta + raw.ta, tv |-> a.tv + raw.tv, t |-> raw.t,
   clip |-> [i \in 1..3 |-> a.clip[i] \/ raw.clip[i]],
   R |-> MM(a.R, raw.R),
   dv |-> VAdd(MV(Rt, a.dv), VHalf(VAdd(raw.dv, MV(Rt, raw.dv)))),
   n |-> a.n + 1]

Due(a) == a.ta >= Target - adj
NewAdj(a) == Clamp(adj + RDiv(a.ta - Target, 100), -(Target \div 2), Target \div 2)

(* one raw sample; ready tells whether an output is due. get: the caller retrieves it. *)
Update(raw, ready, get) ==
  LET a == Accum(IF retr THEN Zero ELSE acc, raw) IN
  /\ acc' = a
  /\ adj' = IF ready THEN NewAdj(a) ELSE adj
  /\ retr' = (ready /\ get)
  /\ sum' = [rx |-> sum.rx + raw.ta,
             tx |-> IF ready /\ get THEN sum.tx + a.ta ELSE sum.tx,
             n |-> IF ready /\ get THEN sum.n + 1 ELSE sum.n,
             clamped |-> sum.clamped \/ (ready /\ (~get \/ adj' \in {-(Target \div 2), Target \div 2}))]
=============================================================================
