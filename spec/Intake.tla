------------------------------- MODULE Intake -------------------------------
(* How the estimator takes sensor messages in: rate limit, averaging, delay      *)
(* compensation, bounded buffers, and which measurement is handed to the filter  *)
(* when the fusion horizon advances.  Times are in any unit; Half is half a      *)
(* filter period, Window the age limit of a buffered measurement.                *)
EXTENDS Integers, Sequences

CONSTANTS Half, Window
NEVER == -1000000000

(* one message stream: last accepted arrival, waiting measurements (oldest first), sums of a pending average *)
Stream(cap, delay, avg) == [cap |-> cap, delay |-> delay, avg |-> avg, last |-> NEVER, q |-> <<>>, n |-> 0, st |-> 0, sv |-> 0, lost |-> FALSE]

Push(q, cap, x) == IF Len(q) >= cap THEN Append(SubSeq(q, 2, Len(q)), x) ELSE Append(q, x)

(* a message with value v arrives at time t; grain is the resolution of averaged times *)
Due(s, t, minint) == s.last = NEVER \/ t - s.last > minint
Offer(s, t, v, minint, grain) ==
  LET n == s.n + 1
      st == s.st + (t \div grain)
      sv == s.sv + v
      stamp == IF s.avg THEN grain * (st \div n) ELSE t
      val == IF s.avg THEN sv \div n ELSE v
      full == Len(s.q) >= s.cap
  IN IF Due(s, t, minint)
     THEN [s EXCEPT !.last = t, !.q = Push(s.q, s.cap, [t |-> stamp - s.delay - Half, v |-> val, a |-> t]), !.n = 0, !.st = 0, !.sv = 0,
                    !.lost = full]
     ELSE IF s.avg THEN [s EXCEPT !.n = n, !.st = st, !.sv = sv] ELSE s

(* the measurement for horizon time h: the newest that is not newer than h, if it is not stale *)
Usable(q, h) == {i \in 1..Len(q) : q[i].t <= h /\ h < q[i].t + Window}
Pick(q, h) == LET C == Usable(q, h) IN IF C = {} THEN 0 ELSE CHOOSE i \in C : \A j \in C : j <= i
Rest(s, i) == [s EXCEPT !.q = SubSeq(s.q, i + 1, Len(s.q))]

(* buffer sizes from the configured delays, in units of 1/1000 ms as recorded: half a period more than the largest one *)
Max2(a, b) == IF a >= b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
ImuLen(maxdelay, period) == CeilDiv(maxdelay, period) + 1
ObsLen(maxdelay, period, imin) ==
  LET o == CeilDiv(3 * maxdelay, 2 * imin) l == ImuLen(maxdelay, period) m == IF o < l THEN o ELSE l IN Max2(m, 2)

(* minimum spacing of accepted messages, from the present distance of the horizon *)
MinInterval(lag, obslen) == lag \div (obslen - 1)
=============================================================================
