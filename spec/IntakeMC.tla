------------------------------ MODULE IntakeMC ------------------------------
(* Every arrival pattern of one message stream against a jittering filter rate: no accepted message is overwritten  *)
(* before the horizon has reached it, at most one is handed over per step, in order, none twice and none too early. *)
EXTENDS Intake, FiniteSets
CONSTANTS MaxT, Delay, MaxDelay, Imin, Averaging, Dts, Tick
VARIABLES t, nextimu, imu, s, minint, out, full
vars == <<t, nextimu, imu, s, minint, out, full>>
Period == 2 * Half
L == ImuLen(MaxDelay, Period)
O == ObsLen(MaxDelay, Period, Imin)
Init == t = 0 /\ nextimu = Period /\ imu = <<>> /\ s = Stream(O, Delay, Averaging) /\ minint = 0 /\ out = <<>> /\ full = 0
H == IF imu = <<>> THEN 0 ELSE Head(imu)
Arrive(x) == IF x THEN Offer(s, t, 0, minint, 1) ELSE s
(* time advances by one tick; a message may arrive; at the filter instant the horizon moves first and messages of the same instant follow *)
Step ==
  /\ t < MaxT
  /\ t' = t + Tick
  /\ \E x \in BOOLEAN, d \in Dts :
       IF t >= nextimu
       THEN LET im == IF Len(imu) >= L THEN Append(Tail(imu), t) ELSE Append(imu, t)
                m == MinInterval(t - Head(im), O)
                s1 == IF x THEN Offer(s, t, 0, m, 1) ELSE s
                i == Pick(s1.q, Head(im))
            IN /\ imu' = im /\ minint' = m /\ nextimu' = t + d
               /\ s' = IF i = 0 THEN s1 ELSE Rest(s1, i)
               /\ out' = IF i = 0 THEN out ELSE <<s1.q[i].t, s1.q[i].a, Head(im)>>
               /\ full' = IF Len(im) >= L /\ full < 3 * L THEN full + 1 ELSE full
       ELSE /\ s' = Arrive(x) /\ d = Period /\ UNCHANGED <<imu, minint, nextimu, out, full>>
Next == Step \/ (t >= MaxT /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Bounded == Len(s.q) <= O
Ordered == \A i, j \in 1..Len(s.q) : i < j => s.q[i].t <= s.q[j].t
NotEarly == out # <<>> => out[1] <= out[3] /\ out[3] < out[1] + Window
(* once the horizon has settled (all entries were taken at the settled spacing) nothing is overwritten *)
NoLoss == [][(s'.last # s.last /\ full >= 2 * L) => ~s'.lost]_vars
Progress == [][out' # out => (out = <<>> \/ out'[1] > out[1])]_vars
=============================================================================
