---------------------------- MODULE RingBufferMC ----------------------------
(* Exhaustive check of RingBuffer, and of a model of the circular array the   *)
(* code uses (head, tail, first-write flag, zeroed time stamps) refining it.  *)
EXTENDS RingBuffer, Integers, TLC
CONSTANTS MaxCap, MaxT, MaxId, GuardEmpty

VARIABLES arr, head, tail, fw, nextId, now, ilast
mcvars == <<bufvars, arr, head, tail, fw, nextId, now, ilast>>

Blank(n) == [i \in 0..(n - 1) |-> NoItem]
MCInit == Init /\ arr = Blank(1) /\ head = 0 /\ tail = 0 /\ fw = TRUE /\ nextId = 1 /\ now = 1
          /\ ilast = [op |-> "none"]

IPush(t, id) ==
  LET h == IF fw THEN head ELSE (head + 1) % cap IN
  /\ arr' = [arr EXCEPT ![h] = [t |-> t, id |-> id]]
  /\ head' = h
  /\ IF h = tail /\ ~fw THEN tail' = (tail + 1) % cap /\ fw' = fw
     ELSE fw' = FALSE /\ tail' = tail
  /\ ilast' = [op |-> "push", id |-> id]

(* scan from head towards tail *)
IIndex(i) == IF head - i < 0 THEN cap + head - i ELSE head - i
ScanLen == CHOOSE n \in 1..cap : IIndex(n - 1) = tail /\ \A m \in 1..(n - 1) : IIndex(m - 1) # tail
Hit(T, k) == LET e == arr[IIndex(k)] IN T >= e.t /\ T < e.t + Window
IPop(T) ==
  LET H == IF GuardEmpty /\ fw THEN {} ELSE {k \in 0..(ScanLen - 1) : Hit(T, k)}
      k == CHOOSE x \in H : \A y \in H : x <= y
  IN IF H = {} THEN /\ ilast' = [op |-> "pop", T |-> T, ok |-> FALSE, item |-> NoItem]
                    /\ UNCHANGED <<arr, head, tail, fw>>
     ELSE LET ix == IIndex(k) IN
          /\ ilast' = [op |-> "pop", T |-> T, ok |-> TRUE, item |-> arr[ix]]
          /\ IF ix = head THEN tail' = head /\ fw' = TRUE ELSE tail' = (ix + 1) % cap /\ fw' = fw
          /\ arr' = [arr EXCEPT ![ix].t = 0]
          /\ head' = head

IAlloc(n) == IF n = cap THEN UNCHANGED <<arr, head, tail, fw>> /\ ilast' = [op |-> "alloc", ok |-> TRUE]
             ELSE IF n = 0 THEN UNCHANGED <<arr, head, tail, fw>> /\ ilast' = [op |-> "alloc", ok |-> FALSE]
             ELSE arr' = Blank(n) /\ head' = 0 /\ tail' = 0 /\ fw' = TRUE /\ ilast' = [op |-> "alloc", ok |-> TRUE]

MCNext ==
  \/ \E dt \in 0..2 : /\ nextId <= MaxId /\ now + dt <= MaxT
                      /\ Push(now + dt, nextId) /\ IPush(now + dt, nextId)
                      /\ nextId' = nextId + 1 /\ now' = now + dt
  \/ \E T \in 0..(MaxT + 2) : Pop(T) /\ IPop(T) /\ UNCHANGED <<nextId, now>>
  \/ \E n \in 0..MaxCap : nextId = 1 /\ Allocate(n) /\ IAlloc(n) /\ UNCHANGED <<nextId, now>>
MCSpec == MCInit /\ [][MCNext]_mcvars

(* refinement: same answers, same content *)
Content == IF fw THEN <<>> ELSE LET n == ((head - tail + cap) % cap) + 1
                                IN [i \in 1..n |-> arr[(tail + (i - 1)) % cap]]
SameAnswers == ilast = last
SameContent == Content = q
=============================================================================
