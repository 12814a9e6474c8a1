------------------------------ MODULE Instances ------------------------------
(* Several estimator instances in one process.  An instance is its own history: what it reports is a function of the calls made on it since it was
   constructed, whatever the memory held before and whatever other instances did in between.  Initialising it again empties it. *)
EXTENDS Integers, Sequences
(* reports of two instances that were given the same history *)
Same(a, b) == a = b
(* an instance that has just been initialised again: nothing estimated, no mode, fault, alignment or origin left *)
Emptied(r) == r.modes = {} /\ r.faults = {} /\ r.zero /\ ~r.origin
(* and it has come back within the given time, when its sensors are healthy *)
Back(sinceReset, limit, aligned) == sinceReset > limit => aligned
=============================================================================
