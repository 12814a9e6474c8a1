----------------------------- MODULE FlowAiding -----------------------------
(* When optical flow is used, and which samples.  Times in us. *)
EXTENDS Integers, FiniteSets
Over(last, wait, t) == last + wait < t
Coast == 10000000       \* flow needs a height above ground this recent; and ends after this long without samples
(* a sample is good: quality, rate, tilt of the vehicle, and duration (compared with the time since the previous one) *)
Good(q, rate, dt, acc, par) == q >= par.qual /\ rate <= par.maxrate /\ par.level /\ 5 * dt >= 4 * acc /\ dt >= 1000 /\ 5 * dt <= 6 * acc /\ dt <= 200000
(* on the ground a bad sample stands for no motion, in the air it is dropped *)
FlowUsable(good, comp, air) == comp /\ (good \/ ~air)
(* c: on, sel, tilt, yaw (aligned, or aligned now), air, ready, usable, silent, motion (ground: steady), terrain (height above ground known), hagl (recent enough to fuse),
   dead (dead reckoning), other (another horizontal aid), bad (GNSS aiding, but bad), of (last time flow was accepted) *)
Flow(c, wait, t, pass) ==
  LET needed == c.air /\ (c.dead \/ (c.on /\ ~c.other) \/ c.bad)
      unfit == ((IF c.air THEN ~c.terrain ELSE ~c.motion) /\ ~needed) \/ ~c.tilt
      drop == c.on /\ (~c.sel \/ unfit)
      start == c.sel /\ ~c.on /\ ~unfit /\ c.yaw
      on == (c.on /\ ~drop) \/ start
      tries == on /\ c.hagl
      of == IF start \/ (tries /\ pass) THEN t ELSE c.of
      late == on /\ Over(of, wait, t) /\ ~c.other
  IN IF c.ready /\ c.usable THEN [on |-> on, start |-> start, tries |-> tries, of |-> of, resets |-> (IF start /\ ~c.other THEN 1 ELSE 0) + (IF late THEN 1 ELSE 0)]
     ELSE [on |-> c.on /\ ~c.silent, start |-> FALSE, tries |-> FALSE, of |-> c.of, resets |-> 0]
=============================================================================
