------------------------------ MODULE EvAiding ------------------------------
(* When vision (external position, velocity, yaw) is used.  Times in us. *)
EXTENDS Integers, FiniteSets
Frequent == 400000      \* a message must have arrived within this time for vision to be started
Over(last, wait, t) == last + wait < t
Modes == {"ev_pos", "ev_vel", "ev_yaw"}
(* was: modes on when vision is looked at; c: sel (selected modes), ready (sample at the horizon), last (arrival of the last message), gps (GNSS aiding), tilt, yaw (aligned) *)
Vision(was, c, wait, t) ==
  IF c.ready THEN
    LET recent == ~Over(c.last, Frequent, t) /\ c.last + Frequent # t
        start == {m \in c.sel \ was : recent /\ c.tilt /\ (IF m = "ev_yaw" THEN ~c.gps ELSE c.yaw)}
    IN [on |-> was \cup start, start |-> start, stopped |-> FALSE]
  ELSE IF was # {} /\ Over(c.last, wait, t) THEN [on |-> {}, start |-> {}, stopped |-> TRUE]
  ELSE [on |-> was, start |-> {}, stopped |-> FALSE]
(* Position (velocity) is taken from vision again when none has been accepted for the configured time.
   Velocity follows a position reset only if nothing else has constrained it for a second. *)
Alone == 1000000
ResetPos(pos, wait, t) == Over(pos, wait, t)
ResetVel(vel, other, wait, t) == Over(vel, wait, t) /\ Over(other, Alone, t)
=============================================================================
