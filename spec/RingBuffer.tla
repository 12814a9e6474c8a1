----------------------------- MODULE RingBuffer -----------------------------
(* Abstract measurement buffer: a bounded FIFO of time-stamped measurements, *)
(* read by asking for "the measurement valid at time T".                      *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Window        \* how much older than the request a measurement may be (exclusive)

VARIABLES q,            \* stored measurements, oldest first: [t |-> time, id |-> unique]
          cap,          \* capacity
          last          \* the last call with its result

bufvars == <<q, cap, last>>

NoItem == [t |-> 0, id |-> 0]

Usable(T, i) == q[i].t <= T /\ T < q[i].t + Window
Best(T) == LET C == {i \in 1..Len(q) : Usable(T, i)}
           IN IF C = {} THEN 0 ELSE CHOOSE i \in C : \A j \in C : j <= i

Init == q = <<>> /\ cap = 1 /\ last = [op |-> "none"]

Push(t, id) ==
  /\ q' = IF Len(q) = cap THEN Append(Tail(q), [t |-> t, id |-> id]) ELSE Append(q, [t |-> t, id |-> id])
  /\ last' = [op |-> "push", id |-> id]
  /\ UNCHANGED cap

Pop(T) ==
  LET i == Best(T) IN
  /\ IF i = 0
     THEN q' = q /\ last' = [op |-> "pop", T |-> T, ok |-> FALSE, item |-> NoItem]
     ELSE q' = SubSeq(q, i + 1, Len(q)) /\ last' = [op |-> "pop", T |-> T, ok |-> TRUE, item |-> q[i]]
  /\ UNCHANGED cap

Allocate(n) ==
  /\ IF n = 0 /\ n # cap
     THEN UNCHANGED <<q, cap>> /\ last' = [op |-> "alloc", ok |-> FALSE]
     ELSE /\ last' = [op |-> "alloc", ok |-> TRUE]
          /\ IF n = cap THEN UNCHANGED <<q, cap>> ELSE q' = <<>> /\ cap' = n

-----------------------------------------------------------------------------
(* what a user relies on *)
Bounded == Len(q) <= cap
Sorted == \A i, j \in 1..Len(q) : i < j => q[i].t <= q[j].t
NoDup == \A i, j \in 1..Len(q) : i # j => q[i].id # q[j].id

(* an answer is never newer than asked, never stale, and nothing as old stays behind it *)
AnswerOK == (last.op = "pop" /\ last.ok) =>
              /\ last.item.t <= last.T /\ last.T < last.item.t + Window
              /\ \A i \in 1..Len(q) : q[i].id > last.item.id
              /\ \A i \in 1..Len(q) : ~ (q[i].t <= last.T /\ last.T < q[i].t + Window)
NoAnswerOK == (last.op = "pop" /\ ~last.ok) =>
              \A i \in 1..Len(q) : ~ (q[i].t <= last.T /\ last.T < q[i].t + Window)
(* nothing ever comes back: the items held are the previous ones minus a prefix, plus the pushed one *)
OnlyShrinksOrAppends ==
  [][ \/ \E k \in 0..Len(q) : q' = SubSeq(q, k + 1, Len(q))
      \/ \E k \in 0..1 : Len(q') > 0 /\ SubSeq(q', 1, Len(q') - 1) = SubSeq(q, k + 1, Len(q))
             /\ last'.op = "push" /\ (k = 1 => Len(q) = cap) ]_<<q, cap>>
=============================================================================
