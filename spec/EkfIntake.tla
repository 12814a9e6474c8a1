------------------------------ MODULE EkfIntake ------------------------------
(* The sensor intake inside a recorded run of the whole filter: which measurements reach the fusion horizon at which step. *)
EXTENDS Intake
Bit(x, b) == (x \div b) % 2 = 1
Max3(a, b, c) == Max2(a, Max2(b, c))
SNames == {"gps", "mag", "baro", "rng", "tas", "flow", "ev", "aux"}
NoneReady == [x \in SNames |-> FALSE]
(* buffer sizes from the parameters in a "new" record (delays in us) *)
MaxDelay(p) ==
  LET base == Max3(p.baro_delay_ms, p.auxvel_delay_ms, p.airspeed_delay_ms)
      a == IF p.mag_fusion_type # 5 THEN Max2(base, p.mag_delay_ms) ELSE base
      b == IF p.range_aid # 0 \/ p.vdist_sensor_type = 2 THEN Max2(a, p.range_delay_ms) ELSE a
      c == IF Bit(p.fusion_mode, 1) THEN Max2(b, p.gps_delay_ms) ELSE b
      d == IF Bit(p.fusion_mode, 2) THEN Max2(c, p.flow_delay_ms) ELSE c
  IN IF Bit(p.fusion_mode, 8) \/ Bit(p.fusion_mode, 16) \/ Bit(p.fusion_mode, 256) THEN Max2(d, p.ev_delay_ms) ELSE d
DelayOf(p, x) == CASE x = "gps" -> p.gps_delay_ms [] x = "mag" -> p.mag_delay_ms [] x = "baro" -> p.baro_delay_ms [] x = "rng" -> p.range_delay_ms
                   [] x = "tas" -> p.airspeed_delay_ms [] x = "flow" -> p.flow_delay_ms [] x = "ev" -> p.ev_delay_ms [] OTHER -> p.auxvel_delay_ms
InNew(p) ==
  LET il == ImuLen(MaxDelay(p), 10000) ol == ObsLen(MaxDelay(p), 10000, 1000 * p.sensor_interval_min_ms) IN
  [il |-> il, ol |-> ol, imu |-> <<>>, mi |-> 0, mode |-> p.fusion_mode, vd |-> p.vdist_sensor_type, run |-> FALSE,
   S |-> [x \in SNames |-> Stream(IF x = "flow" THEN il ELSE ol, DelayOf(p, x), x \in {"mag", "baro"})]]
InPar(I, name, v) == IF name = "fusion_mode" THEN [I EXCEPT !.mode = v \div 1000] ELSE IF name = "vdist_sensor_type" THEN [I EXCEPT !.vd = v \div 1000] ELSE I
Wanted(I, m) == m[1] # "gps" \/ ((Bit(I.mode, 1) \/ I.vd = 1) /\ m[3] > 2)
(* messages before the filter instant t see the old spacing limit, those at t the new one *)
RECURSIVE Feed(_, _, _, _, _, _)
Feed(I, S, d, k, t, mi) ==
  IF k > Len(d) THEN S
  ELSE LET m == d[k] x == m[1]
       IN Feed(I, IF Wanted(I, m) THEN [S EXCEPT ![x] = Offer(S[x], m[2], 0, IF m[2] < t THEN I.mi ELSE mi, IF S[x].avg THEN 1000 ELSE 1)] ELSE S, d, k + 1, t, mi)
(* one completed filter period at time t with the messages d since the last one; pops: the streams looked at *)
InStep(I, t, d, pops) ==
  LET im == Push(I.imu, I.il, t)
      h == im[1]
      mi == MinInterval(t - h, I.ol)
      S == Feed(I, I.S, d, 1, t, mi)
      pk == [x \in SNames |-> IF x \in pops THEN Pick(S[x].q, h) ELSE 0]
  IN [I |-> [I EXCEPT !.imu = im, !.mi = mi, !.S = [x \in SNames |-> IF pk[x] = 0 THEN S[x] ELSE Rest(S[x], pk[x])]],
      h |-> h, full |-> Len(I.imu) >= I.il,
      new |-> [x \in SNames |-> IF S[x].q = <<>> THEN NEVER ELSE S[x].q[Len(S[x].q)].t],            \* newest waiting, before and after the hand-over
      left |-> [x \in SNames |-> IF pk[x] = Len(S[x].q) THEN NEVER ELSE S[x].q[Len(S[x].q)].t],
      ready |-> [x \in SNames |-> pk[x] # 0],
      stamp |-> [x \in SNames |-> IF pk[x] = 0 THEN 0 ELSE S[x].q[pk[x]].t],
      got |-> [x \in SNames |-> Len(S[x].q) > 0 /\ S[x].last # I.S[x].last]]
Unstarted == {"mag", "baro"}      \* looked at before the filter runs
=============================================================================
