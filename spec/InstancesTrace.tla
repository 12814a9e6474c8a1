--------------------------- MODULE InstancesTrace ---------------------------
(* Pairs of filters given the same calls, with a third one running in between; and filters initialised again in flight. *)
EXTENDS Instances, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, since, seen
vars == <<l, since, seen>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
Init == l = 1 /\ since = -1 /\ seen = {}
New == Is("new") /\ since' = -1 /\ seen' = {}
Par == Is("par") /\ UNCHANGED <<since, seen>>
Pair == Is("u") /\ "b" \in DOMAIN Ev /\ Ev.b.e = "u" /\ Same([t |-> Ev.t, td |-> Ev.td, h |-> Ev.h], [t |-> Ev.b.t, td |-> Ev.b.td, h |-> Ev.b.h]) /\ UNCHANGED <<since, seen>>
Zero(q) == \A k \in 1..Len(q) : q[k] = 0
(* modes the environment asserts (in the air, fixed wing, at rest) are not the filter's *)
Call == /\ Is("call")
        /\ Ev.n = "init" => Ev.ret /\ Emptied([modes |-> ToSet(Ev.cs), faults |-> ToSet(Ev.fs), zero |-> Zero(Ev.vp) /\ Zero(Ev.bi) /\ Ev.q = <<100000, 0, 0, 0>>, origin |-> Ev.ogn])
        /\ IF Ev.n = "init" THEN since' = Ev.t /\ seen' = {} ELSE UNCHANGED <<since, seen>>
Solo == /\ Is("u") /\ "b" \notin DOMAIN Ev
        /\ LET cs == ToSet(Ev.cs) IN
           /\ since >= 0 => Back(Ev.t - since, 9000000, "tilt_align" \in cs)
           /\ (since >= 0 /\ Ev.t - since < 1000000) => "tilt_align" \notin cs
           /\ since >= 0 => Back(Ev.t - since, 30000000, {"yaw_align", "gps"} \subseteq cs /\ Ev.ogn)
        /\ UNCHANGED <<since, seen>>
Next == New \/ Par \/ Pair \/ Call \/ Solo
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
