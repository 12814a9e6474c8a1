----------------------------- MODULE DeadReckon -----------------------------
(* Loss of horizontal aiding: dead reckoning, validity of the position, and the synthetic position.  Times in us. *)
EXTENDS Integers, FiniteSets
Recent(last, wait, t) == last + wait > t
Over(last, wait, t) == last + wait < t
Never == -1
(* c: vp (position or velocity aiding selected), vpLast (accepted last), of, ofLast, wind, arLast (airspeed), beLast (sideslip) *)
Constrained(c, wait, t) ==
  \/ c.vp /\ Recent(c.vpLast, wait, t)
  \/ c.of /\ Recent(c.ofLast, wait, t)
  \/ c.wind /\ Recent(c.arLast, wait, t) /\ Recent(c.beLast, wait, t)
(* aid: since when (less the waiting time) drift is not constrained; Never before the first aiding *)
Aid(aid, drifting, wait, t) == IF drifting THEN aid ELSE t - wait
Expired(aid, valid, t) == aid = Never \/ Over(aid, valid, t)
(* without any aiding at all a stationary position is made up *)
Synthetic(sources, air) == sources = {} /\ ~air
LocalValid(expired, synthetic) == ~expired /\ ~synthetic
FakeEvery == 200000
FakeGap == 400000       \* beginning anew after this long
=============================================================================
