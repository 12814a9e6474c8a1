---------------------------- MODULE LimitsTrace ----------------------------
(* Covariance and state after every step of recorded flights.  Variances and states are recorded as the largest of each block, scaled. *)
EXTENDS Limits, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, prev, lim
vars == <<l, prev, lim>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [cs |-> {}]
Init == l = 1 /\ prev = None /\ lim = 0
New == Is("new") /\ prev' = None /\ lim' = Ev.acc_bias_lim
Par == Is("par") /\ lim' = (IF Ev.n = "acc_bias_lim" THEN 1000 * Ev.v ELSE lim) /\ prev' = prev
Same == [cs |-> ToSet(Ev.cs), pq |-> Ev.pq, pv |-> Ev.pv, pp |-> Ev.pp, pgb |-> Ev.pgb, pab |-> Ev.pab, pmi |-> Ev.pmi, pmb |-> Ev.pmb, pw |-> Ev.pw,
         xv |-> Ev.xv, xp |-> Ev.xp, gb |-> Ev.gb, ab |-> Ev.ab, mi |-> Ev.mi, mb |-> Ev.mb, wnd |-> Ev.wnd, rcq |-> Ev.rcq]
Used(f, c) == f \in c
(* the variance of an accelerometer bias that must not be learned is frozen, wherever it is *)
V(f) == (f = "pab" /\ prev.pab = Ev.pab) \/ Settled(Ev.rcq # prev.rcq \/ (Used("mag_3D", ToSet(Ev.cs)) /\ ~Used("mag_3D", prev.cs)), Ev[f], CASE f = "pq" -> 1000010 [] f = "pv" -> 100001000 [] f = "pp" -> 100001000 [] f = "pgb" -> 100001000 [] f = "pab" -> 11500
                               [] f = "pmi" -> 1000010 [] f = "pmb" -> 1000010 [] OTHER -> 100001000)
X(f) == StateLimited(prev[f] # Ev[f], Ev[f], CASE f = "xv" -> 1000010 [] f = "xp" -> 100001000 [] f = "gb" -> 355000 [] f = "ab" -> lim + lim \div 100 + 1
                               [] f = "mi" -> 10010000 [] f = "mb" -> 5010000 [] OTHER -> 10010000)
Step == /\ Is("u")
        /\ Ev.pfin /\ Ev.sfin /\ Ev.psym /\ ~Ev.pneg
        /\ Ev.qn > 999990 /\ Ev.qn < 1000010
        /\ LET cs == ToSet(Ev.cs) IN
           prev # None =>
             /\ \A f \in {"pq", "pv", "pp", "pgb", "pab", "pmi", "pmb", "pw"} : V(f)
             /\ \A f \in {"xv", "xp", "gb", "ab", "mi", "mb", "wnd"} : X(f)
             /\ UnusedClear(Used("mag_3D", prev.cs), Used("mag_3D", cs), Ev.rcq # prev.rcq, Ev.magz)
             /\ UnusedClear(Used("wind", prev.cs), Used("wind", cs), FALSE, Ev.windz)
        /\ prev' = Same
        /\ UNCHANGED lim
Next == New \/ Par \/ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
