-------------------------------- MODULE Wind --------------------------------
(* Life of the wind estimate: airspeed, synthetic sideslip and drag.  Times in us. *)
EXTENDS Integers
CONSTANTS Lost          \* both measurements missing for this long end the estimate
Over(last, wait, t) == last + wait < t
(* w: on, aspd (airspeed in use), ar, be (last accepted airspeed / sideslip, or start with it) *)
NoWind(t) == [on |-> FALSE, aspd |-> FALSE, ar |-> t, be |-> t]
(* c: syn (position is made up), tas (airspeed sample at the horizon), air (in flight), beta (sideslip enabled), drag (drag selected),
   yaw (the heading is usable), tasOk / betaOk (the measurement was accepted), every (interval of the sideslip) *)
Ends(w, c, t) == w.on /\ (c.syn \/ (Over(w.ar, Lost, t) /\ Over(w.be, Lost, t) /\ ~c.drag))
WantsTas(c) == ~c.syn /\ c.tas /\ c.air
Air(w, c, t) ==
  LET e == [w EXCEPT !.on = @ /\ ~Ends(w, c, t), !.aspd = @ /\ ~Over(w.ar, Lost, t)]
      s == IF WantsTas(c) /\ ~e.on THEN [e EXCEPT !.on = TRUE, !.ar = t] ELSE e
  IN IF WantsTas(c) /\ c.tasOk THEN [s EXCEPT !.aspd = TRUE, !.ar = t] ELSE s
WantsBeta(w, c, t) == ~c.syn /\ c.air /\ c.beta /\ Over(w.be, c.every, t)
Beta(w, c, t) ==
  LET s == IF WantsBeta(w, c, t) /\ ~w.on THEN [w EXCEPT !.on = TRUE, !.be = t] ELSE w
  IN IF WantsBeta(w, c, t) /\ c.betaOk THEN [s EXCEPT !.be = t] ELSE s
WantsDrag(c) == c.drag /\ ~c.syn /\ c.air /\ c.yaw
Drag(w, c) == IF WantsDrag(c) THEN [w EXCEPT !.on = TRUE] ELSE w
WindStep(w, c, t) == Drag(Beta(Air(w, c, t), c, t), c)
(* which measurement a new estimate starts from *)
Start(w, c, t) ==
  LET a == Air(w, c, t) b == Beta(a, c, t) IN
  IF ~(w.on /\ ~Ends(w, c, t)) /\ a.on THEN "tas" ELSE IF ~a.on /\ b.on THEN "beta" ELSE IF ~b.on /\ WantsDrag(c) THEN "drag" ELSE "none"
=============================================================================
