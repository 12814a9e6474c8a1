----------------------------- MODULE HorizonMC -----------------------------
(* The delay line between now and the fusion horizon, with samples as consecutive numbers: whatever the spacing of the samples, once the line   *)
(* has filled every sample is at the horizon exactly once, in order, a fixed number of samples late - and late enough for the largest delay.     *)
EXTENDS Intake
CONSTANTS Delays, Dts, MaxN
VARIABLES line, L, n, times, done
vars == <<line, L, n, times, done>>
Init == line = <<>> /\ n = 0 /\ times = <<>> /\ done = <<>> /\ L \in {ImuLen(d, 2 * Half) : d \in Delays}
Next == \/ /\ n < MaxN
           /\ \E dt \in Dts :
                LET ln == Push(line, L, n + 1) IN
                /\ n' = n + 1 /\ line' = ln
                /\ times' = Append(times, (IF times = <<>> THEN 0 ELSE times[n]) + dt)
                /\ done' = IF Len(line) >= L \/ (Len(ln) = L /\ done = <<>>) THEN Append(done, ln[1]) ELSE done
           /\ UNCHANGED L
        \/ n >= MaxN /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
EachOnceInOrder == \A k \in 1..Len(done) : done[k] = k
FixedLag == Len(line) >= L => n - line[1] = L - 1
FarEnough == \A d \in Delays : (ImuLen(d, 2 * Half) = L /\ Len(line) >= L) => times[n] - times[line[1]] >= d
=============================================================================
