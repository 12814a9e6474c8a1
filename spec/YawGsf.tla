------------------------------- MODULE YawGsf -------------------------------
(* The backup yaw estimator: a bank of headings with weights, and when the
   filter takes its yaw from it.  Angles in 1/Turn of a turn or in the unit of
   the caller; times in us. *)
EXTENDS Integers, Sequences, FiniteSets
Models == 5
Spacing == 5000000          \* between two resets
Lost == 1000000             \* GNSS absent for longer: the filter's troubles may come from that
Over(last, wait, t) == last + wait < t
(* heading of model k on a circle of the given size: centres of equal parts of it *)
Centre(k, circle) == ((2 * k - 1) * circle) \div (2 * Models) - circle \div 2
(* life of the bank: flying and a velocity start it on equal weights, landing ends it; it starts again when no model explains the data *)
Runs(on, air, vel, collapsed) == air /\ ((on /\ ~collapsed) \/ (~on /\ vel))
Starts(on, air, vel) == air /\ ~on /\ vel
(* c: aiding (with GNSS), ready (GNSS sample), want (asked for), fail (velocity says that yaw is wrong), n (resets done), limit, last (reset), prev (GNSS sample before), data, sure *)
Aligns(c, t) == ~c.aiding /\ c.want /\ Over(c.last, Spacing, t)
Recovers(c, t) == c.aiding /\ (c.want \/ c.fail) /\ c.n < c.limit /\ Over(c.last, Spacing, t) /\ ~Over(c.prev, Lost, t)
TakesYaw(c, t) == c.ready /\ (Aligns(c, t) \/ Recovers(c, t)) /\ c.data /\ c.sure
=============================================================================
