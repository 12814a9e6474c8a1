------------------------------- MODULE Terrain -------------------------------
(* Terrain height: start, measurements, validity and sensor bits.  Times in us, heights as in the users (down). *)
EXTENDS Integers
CONSTANTS Fresh,        \* valid for this long after a measurement
          Again         \* refused for this long: taken from the reading
Recent(last, wait, t) == last + wait > t
Over(last, wait, t) == last + wait < t
(* k: init, hagl (last accepted range, ground or start), fake (hagl came from the ground), flow (last flow taken, or start) *)
(* c: air, useR, useF, range \in {"none", "ok", "refused"}, flow \in {"none", "taken", "refused"} *)
StartTerrain(air, t) == [init |-> ~air, hagl |-> t, fake |-> ~air, flow |-> t]
Begin(k, c, t) ==
  IF ~c.air THEN [k EXCEPT !.init = TRUE, !.hagl = t, !.fake = TRUE]
  ELSE IF c.useR /\ c.range # "none" THEN [k EXCEPT !.init = TRUE, !.hagl = t, !.fake = FALSE]
  ELSE IF c.useF /\ c.flow # "none" THEN [k EXCEPT !.init = TRUE, !.flow = t]
  ELSE [k EXCEPT !.init = FALSE]
(* a refused reading replaces the estimate after a long time *)
Replace(k, c, t) == k.init /\ c.air /\ c.useR /\ c.range = "refused" /\ Over(k.hagl, Again, t)
TerrainStep(k, c, t) ==
  IF ~k.init \/ ~c.air THEN Begin(k, c, t)
  ELSE [k EXCEPT !.hagl = IF c.useR /\ c.range = "ok" THEN t ELSE @, !.fake = IF c.useR /\ c.range = "ok" THEN FALSE ELSE @, !.flow = IF c.useF /\ c.flow = "taken" THEN t ELSE @]
(* flow serves the terrain when range does not and the main filter has GNSS instead of flow *)
FlowServes(k, gps, of, air, t) == air /\ gps /\ ~of /\ Over(k.hagl, Fresh, t)
Valid(k, t) == k.init /\ (Recent(k.hagl, Fresh, t) \/ Recent(k.flow, Fresh, t))
ByRange(k, c, t) == c.useR /\ Recent(k.hagl, Fresh, t) /\ ~k.fake
ByFlow(k, c, t) == c.useF /\ Recent(k.flow, Fresh, t)
(* down: larger is lower; the terrain is at least the clearance below the vehicle *)
Below(terrain, vehicle, clearance) == IF terrain - vehicle < clearance THEN vehicle + clearance ELSE terrain
=============================================================================
