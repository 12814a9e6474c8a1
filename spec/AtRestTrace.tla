---------------------------- MODULE AtRestTrace ----------------------------
(* Recorded IMU histories. Vibration measures are first-order filters (1 % of the newest difference per sample), scaled so that the limit is the configured scaler. *)
EXTENDS AtRest, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sc, vg, va, n
vars == <<air, last, rest, l, sc, vg, va, n>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Init == l = 1 /\ sc = 1000 /\ vg = 0 /\ va = 0 /\ n = 0 /\ air = FALSE /\ last = 0 /\ rest = FALSE
AbsV(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == AbsV(a - b) <= tol
(* recorded 1e4 times the scaled measure; large values are saturated by the recorder *)
Blend(old, x) == (old \div 100) * 99 + (((old % 100) * 99) \div 100) + (x \div 100)
FilterOK(old, x, new) == x > 900000000 \/ old > 900000000 \/ Near(new, Blend(old, x), 3 + new \div 20000)
Clearly(v, lim) == v > lim + 2 + lim \div 5000
Perhaps(v, lim) == v > lim - 2 - lim \div 5000
(* rate limit: w is recorded as 1e9 * 20 * angle, i.e. the limit is sc (1e3) * dt; dt is the spacing of time stamps, limited *)
Dt(t) == LET d == t - n IN IF n = -1 THEN 20000 ELSE IF d < 100 THEN 100 ELSE IF d > 20000 THEN 20000 ELSE d
New == Is("new") /\ air' = FALSE /\ last' = -Ev.t0 /\ rest' = FALSE /\ sc' = Ev.sc /\ vg' = 0 /\ va' = 0 /\ n' = -1
Air == Is("air") /\ SetAir(Ev.v) /\ UNCHANGED <<sc, vg, va, n>>
Imu == /\ Is("imu")
       /\ FilterOK(vg, Ev.da, Ev.g) /\ FilterOK(va, Ev.dv, Ev.a)
       /\ LET sure == Clearly(Ev.g, 10 * sc) \/ Clearly(Ev.a, 10 * sc) \/ Clearly(Ev.w, sc * Dt(Ev.t))
              maybe == Perhaps(Ev.g, 10 * sc) \/ Perhaps(Ev.a, 10 * sc) \/ Perhaps(Ev.w, sc * Dt(Ev.t))
          IN \E m \in {sure, maybe} : Sample(Ev.t, m)
       /\ rest' = Ev.rest
       /\ vg' = Ev.g /\ va' = Ev.a /\ n' = Ev.t /\ UNCHANGED sc
Next == New \/ Air \/ Imu
Spec == Init /\ [][Next]_vars
Sound == rest => ~air \/ n > 0
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
