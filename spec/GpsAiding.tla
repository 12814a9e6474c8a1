------------------------------ MODULE GpsAiding ------------------------------
(* When GNSS is used for velocity and position.  Times in us. *)
EXTENDS Integers, FiniteSets
Over(last, wait, t) == last + wait < t
Quality == 5000000      \* checks must not have failed for this long; and failing for this long is failure
Silence == 10000000     \* without a sample at the horizon
Short == 1000000        \* the same while something else is aiding
(* c: on (aiding now), sel, ready (sample at the horizon), age (horizon minus last sample), other (another horizontal aid), tilt, yaw (aligned when needed),
   origin, fail/pass (last failed / passed quality check) *)
MayStart(c, t) == c.sel /\ c.tilt /\ c.origin /\ Over(c.fail, Quality, t)
Poor(c, t) == c.other /\ Over(c.pass, Quality, t)
(* result: on, why *)
Aid(c, t) ==
  IF c.ready THEN
    LET started == ~c.on /\ MayStart(c, t) /\ c.yaw
        on == (c.on /\ c.sel) \/ started
    IN IF on /\ Poor(c, t) THEN [on |-> FALSE, why |-> "gps_quality_poor", started |-> started]
       ELSE [on |-> on, why |-> "", started |-> started]
  ELSE IF c.on /\ c.age > Silence THEN [on |-> FALSE, why |-> "gps_data_stopped", started |-> FALSE]
  ELSE IF c.on /\ c.age > Short /\ c.other THEN [on |-> FALSE, why |-> "gps_data_stopped_using_alternate", started |-> FALSE]
  ELSE [on |-> c.on, why |-> "", started |-> FALSE]
Reasons == {"gps_quality_poor", "gps_data_stopped", "gps_data_stopped_using_alternate"}
(* aiding without success: nothing horizontal accepted for the configured time, or no position for twice as long *)
Failing(pos, vel, del, flow, wait, t) == (Over(pos, wait, t) /\ Over(vel, wait, t) /\ Over(del, wait, t) /\ Over(flow, wait, t)) \/ Over(pos, 2 * wait, t)
=============================================================================
