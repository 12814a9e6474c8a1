----------------------------- MODULE YawSource -----------------------------
(* Heading measured by a dual-antenna GNSS receiver: when it is used, and that it is the only one then.  Times in us. *)
EXTENDS Integers, FiniteSets
YawWait == 5000000      \* a heading must be accepted within this time
Silence == 10000000     \* nothing is known after this long without GNSS data
Over(last, wait, t) == last + wait < t
Off == [on |-> FALSE, faulty |-> FALSE, last |-> 0]
(* y: on, faulty (not used any more), last (heading accepted);
   c: sel, ready (GNSS sample at the horizon), heading (it has one), tilt (aligned), pass (heading accepted), age (of the last sample), stop (GNSS is given up) *)
Gnss(y, c, t) ==
  LET begin == c.ready /\ c.sel /\ ~y.faulty /\ c.heading /\ ~y.on /\ c.tilt
      last == IF begin \/ (c.ready /\ y.on /\ c.heading /\ c.pass) THEN t ELSE y.last
      on == begin \/ y.on
      fail == c.ready /\ on /\ Over(last, YawWait, t)
  IN IF c.ready /\ (~c.sel \/ y.faulty) THEN [y EXCEPT !.on = FALSE]
     ELSE [on |-> on /\ ~fail /\ ~c.stop /\ ~(~c.ready /\ c.age > Silence), faulty |-> y.faulty \/ fail, last |-> last]
(* vision may take yaw over when neither GNSS aiding nor its heading is used *)
VisionMay(gps, gy) == ~gps /\ ~gy
=============================================================================
