------------------------------- MODULE Accel -------------------------------
(* Trouble with the accelerometer: what is taken as evidence of it, how long
   it is remembered, and when the accelerometer biases may be learned. *)
EXTENDS Integers, FiniteSets
CONSTANTS ClipFull,      \* most clipped samples remembered (as many periods to forget)
          Probation      \* shortest time for which bad acceleration is declared
(* h: n clipped samples remembered, bad time of the last evidence, on declared *)
NoTrouble(t) == [n |-> 0, bad |-> t, on |-> FALSE]
Clips(n, clip) == IF clip /\ n < ClipFull THEN n + 1 ELSE IF n > 0 THEN n - 1 ELSE 0
(* an innovation: fresh (attempted within a second), up (seems to be falling), over (by more than the limit) *)
Falling(pos, vel) ==
  /\ pos.fresh
  /\ IF vel.fresh THEN (vel.over /\ pos.up) \/ (pos.over /\ vel.up) ELSE pos.over
Independent(vel, same) == vel.fresh /\ ~same
Evidence(n, pos, vel, same) == Falling(pos, vel) /\ ((pos.fresh /\ Independent(vel, same)) \/ n > 0)
Health(h, clip, pos, vel, same, t) ==
  LET n == Clips(h.n, clip)
      ev == Evidence(n, pos, vel, same)
      bad == IF ev THEN t ELSE h.bad
  IN [n |-> n, bad |-> bad, on |-> IF h.on THEN t - bad < Probation ELSE ev]
(* which axes may not learn *)
Blocked(all, aligned, air, clip) == all \/ clip \/ ~(aligned \/ air)
AllBlocked(chosen, violent, badacc) == chosen \/ violent \/ badacc
=============================================================================
