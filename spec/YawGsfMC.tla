------------------------------ MODULE YawGsfMC ------------------------------
(* A bank of five headings on a circle of twenty, any true heading, measurements
   that tell likely from unlikely headings, landings and outages, with requests
   and failures in any order; one step is one second. *)
EXTENDS YawGsf
CONSTANTS Limit, Circle, Sec, Levels, Wild
VARIABLES t, on, w, x, truth, air, last, n, prev, want, resets, aiding, broken
vars == <<t, on, w, x, truth, air, last, n, prev, want, resets, aiding, broken>>
K == 1..Models
Total == 1000
WrapC(a) == ((a + Circle \div 2) % Circle) - Circle \div 2
AbsI(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + Sum(f, S \ {k})
Normal(f) == LET s == Sum(f, K) IN [k \in K |-> IF f[k] = 0 THEN 1 ELSE (f[k] * Total) \div s]
Likely(k) == LET d == AbsI(WrapC(x[k] - truth)) IN IF d <= Circle \div 10 THEN 8 ELSE IF d <= Circle \div 4 THEN 2 ELSE 0
Best == CHOOSE k \in K : \A j \in K : w[k] >= w[j]
Sure == on /\ w[Best] >= 900
Init == /\ t = 0 /\ on = FALSE /\ w = [k \in K |-> Total \div Models] /\ x = [k \in K |-> Centre(k, Circle)] /\ truth \in -(Circle \div 2)..(Circle \div 2 - 1)
        /\ air = FALSE /\ last = 0 /\ n = 0 /\ prev = 0 /\ want = FALSE /\ resets = <<>> /\ aiding = TRUE /\ broken = {}
Ok(name, p) == IF p THEN {} ELSE {name}
Step(fly, gps, moving, ask, failing, wild) ==
  LET now == t + Sec
      c == [aiding |-> aiding, ready |-> gps, want |-> want \/ ask, fail |-> failing, n |-> n, limit |-> Limit, last |-> last, prev |-> prev, data |-> on, sure |-> Sure]
      take == TakesYaw(c, now)
      start == Starts(on, fly, gps)
      run == Runs(on, fly, gps, FALSE)
      w1 == IF start THEN [k \in K |-> Total \div Models] ELSE IF run /\ gps /\ moving /\ ~wild THEN Normal([k \in K |-> w[k] * Likely(k)]) ELSE w
  IN /\ t' = now /\ on' = run /\ w' = w1 /\ air' = fly /\ want' = ((want \/ ask) /\ ~take) /\ prev' = IF gps THEN now ELSE prev
     /\ last' = IF take THEN now ELSE last
     /\ n' = IF take /\ aiding THEN n + 1 ELSE n
     /\ resets' = IF take THEN Append(resets, now) ELSE resets
     /\ broken' = broken \cup Ok("reset to the truth", take => AbsI(WrapC(x[Best] - truth)) <= Circle \div 10)
          \cup Ok("only in use", take => on)
          \cup Ok("not after an outage", (take /\ aiding) => now - prev <= Lost)
          \cup Ok("a request is served", (ask /\ gps /\ on /\ Sure /\ aiding /\ n < Limit /\ now - last > Spacing /\ now - prev <= Lost) => take)
     /\ UNCHANGED <<x, truth, aiding>>
Switch == aiding' \in BOOLEAN /\ aiding' # aiding /\ t % (4 * Sec) = 0 /\ UNCHANGED <<t, on, w, x, truth, air, last, n, prev, want, resets, broken>>
Next == (t < Levels * Sec /\ \E fly, gps, ask, failing \in BOOLEAN : \E moving \in (IF Wild THEN BOOLEAN ELSE {TRUE}) : Step(fly, gps, moving, ask, failing, FALSE)) \/ Switch
Spec == Init /\ [][Next]_vars
Sound == broken = {}
Weights == \A k \in K : w[k] >= 0
One == AbsI(Sum(w, K) - Total) <= 2 * Models
Bounded == n <= Limit
Spaced == \A i \in 1..(Len(resets) - 1) : resets[i + 1] - resets[i] > Spacing
(* every heading is near one of the models *)
Covered == \E k \in K : AbsI(WrapC(x[k] - truth)) <= Circle \div 10
Even == \A i, j \in K : i # j => AbsI(WrapC(x[i] - x[j])) >= Circle \div Models
View == <<t, on, w, truth, air, last, n, prev, want, aiding, broken, Len(resets)>>
=============================================================================
