---------------------------- MODULE IntakeTrace ----------------------------
(* Runs recorded from the estimator interface: every message, every filter instant and what was handed over. Times in us. *)
EXTENDS Intake, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, imu, imulen, obslen, minint, use, drag, yoff
vars == <<l, S, imu, imulen, obslen, minint, use, drag, yoff>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Bit(x, b) == (x \div b) % 2 = 1
Max3(a, b, c) == Max2(a, Max2(b, c))
Names == {"gps", "mag", "baro", "rng", "tas", "flow", "ev", "aux"}
NoDrag == [n |-> 0, st |-> 0, sv |-> 0, sd |-> 0, q |-> <<>>]
Empty == [x \in Names |-> Stream(1, 0, FALSE)]
Init == l = 1 /\ S = Empty /\ imu = <<>> /\ imulen = 1 /\ obslen = 2 /\ minint = 0 /\ use = [gps |-> FALSE, drag |-> FALSE] /\ drag = NoDrag /\ yoff = 0
(* the sensors whose delay has to be covered; delays are recorded in us *)
MaxDelay ==
  LET base == Max3(Ev.baro, Ev.aux, Ev.tas)
      a == IF Ev.magt # 5 THEN Max2(base, Ev.mag) ELSE base
      b == IF Ev.raid # 0 \/ Ev.vdist = 2 THEN Max2(a, Ev.rng) ELSE a
      c == IF Bit(Ev.mode, 1) THEN Max2(b, Ev.gps) ELSE b
      d == IF Bit(Ev.mode, 2) THEN Max2(c, Ev.flow) ELSE c
  IN IF Bit(Ev.mode, 8) \/ Bit(Ev.mode, 16) \/ Bit(Ev.mode, 256) THEN Max2(d, Ev.ev) ELSE d
New == /\ Is("new")
       /\ LET il == ImuLen(MaxDelay, 10000) ol == ObsLen(MaxDelay, 10000, 1000 * Ev.imin) IN
          /\ imulen' = il /\ obslen' = ol
          /\ S' = [x \in Names |-> Stream(IF x = "flow" THEN il ELSE ol, Ev[x], x \in {"mag", "baro"})]
       /\ imu' = <<>> /\ minint' = 0 /\ drag' = NoDrag /\ yoff' = 0
       /\ use' = [gps |-> Bit(Ev.mode, 1) \/ Ev.vdist = 1, drag |-> Bit(Ev.mode, 32)]
Started == imu # <<>> \/ minint >= 0
(* a message; GNSS needs to be wanted and to have a three-dimensional fix *)
Msg == /\ l <= Len(Trace) /\ Ev.e \in Names /\ l' = l + 1
       /\ LET x == Ev.e
              wanted == x # "gps" \/ (use.gps /\ Ev.fix > 2)
          IN /\ S' = IF wanted THEN [S EXCEPT ![x] = Offer(S[x], Ev.t, Ev.v, minint, IF S[x].avg THEN 1000 ELSE 1)] ELSE S
             /\ x = "gps" => /\ Ev.acc = (wanted /\ Due(S[x], Ev.t, minint))
                             /\ yoff' = IF Ev.acc THEN (IF Ev.yi < -100000 THEN 0 ELSE Ev.yi) ELSE yoff
                             /\ Ev.yo = yoff'
             /\ x # "gps" => UNCHANGED yoff
       /\ UNCHANGED <<imu, imulen, obslen, minint, use, drag>>
MinRatio == Max2(5, CeilDiv(imulen, obslen))
(* mean specific force over the samples taken, weighted with their lengths *)
DragStep(d, t, v, dt) ==
  LET n == d.n + 1 st == d.st + t sv == d.sv + v * dt sd == d.sd + dt IN
  IF ~use.drag THEN d
  ELSE IF n >= MinRatio THEN [n |-> 0, st |-> 0, sv |-> 0, sd |-> 0, q |-> Push(d.q, obslen, [t |-> st \div n, v |-> sv \div sd, a |-> t])]
       ELSE [d EXCEPT !.n = n, !.st = st, !.sv = sv, !.sd = sd]
AbsV(x) == IF x < 0 THEN -x ELSE x
Popped(name, q, h, pops, tol) ==
  LET i == Pick(q, h) got == {k \in 1..Len(pops) : pops[k][1] = name} IN
  IF i = 0 THEN got = {}
  ELSE \E k \in got : pops[k][2] = q[i].t /\ AbsV(pops[k][3] - q[i].v) <= tol
Imu == /\ Is("imu")
       /\ IF Ev.up
          THEN LET im == Push(imu, imulen, Ev.t)
                   h == im[1]
                   d1 == DragStep(drag, Ev.t, Ev.ax, Ev.dt)
               IN /\ imu' = im
                  /\ Ev.td = h
                  /\ minint' = MinInterval(Ev.t - h, obslen)
                  /\ \A x \in Names : Popped(x, S[x].q, h, Ev.pop, 3)
                  /\ Popped("drag", d1.q, h, Ev.pop, 30)
                  /\ S' = [x \in Names |-> Rest(S[x], Pick(S[x].q, h))]
                  /\ drag' = [d1 EXCEPT !.q = SubSeq(d1.q, Pick(d1.q, h) + 1, Len(d1.q))]
          ELSE Ev.pop = <<>> /\ UNCHANGED <<imu, S, drag, minint>>
       /\ UNCHANGED <<imulen, obslen, use, yoff>>
Next == New \/ Msg \/ Imu
Spec == Init /\ [][Next]_vars
Sound == \A x \in Names : Len(S[x].q) <= S[x].cap /\ \A i, j \in 1..Len(S[x].q) : i < j => S[x].q[i].t <= S[x].q[j].t
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
