------------------------------ MODULE AccelMC ------------------------------
(* Every sequence of clipping, innovations, sources and manoeuvres. *)
EXTENDS Accel
CONSTANTS Horizon
VARIABLES t, h, since, lastFall, var, bias, inh, broken
vars == <<t, h, since, lastFall, var, bias, inh, broken>>
Obs == {o \in [fresh : BOOLEAN, up : BOOLEAN, over : BOOLEAN] : (o.over => o.up) /\ (~o.fresh => ~o.over)}
Init == t = 0 /\ h = NoTrouble(-Probation) /\ since = -1 /\ lastFall = -Probation /\ var = 5 /\ bias = 0 /\ inh = FALSE /\ broken = {}
Ok(name, c) == IF c THEN {} ELSE {name}
Step(clip, pos, vel, same, violent, learn) ==
  LET h1 == Health(h, clip, pos, vel, same, t + 1)
      fall == Falling(pos, vel)
      blk == Blocked(AllBlocked(FALSE, violent, h.on), TRUE, TRUE, clip)
      v1 == IF blk THEN var ELSE IF learn /\ var > 1 THEN var - 1 ELSE var
      b1 == IF blk THEN bias ELSE IF learn /\ bias < 2 THEN bias + 1 ELSE bias
  IN /\ t' = t + 1 /\ h' = h1 /\ var' = v1 /\ bias' = b1 /\ inh' = blk
     /\ lastFall' = IF fall THEN t + 1 ELSE lastFall
     /\ since' = IF h1.on /\ ~h.on THEN t + 1 ELSE since
     /\ broken' = broken
          \cup Ok("declared only when falling", (h1.on /\ ~h.on) => fall)
          \cup Ok("declared at once on independent evidence", (fall /\ vel.fresh /\ ~same) => h1.on)
          \cup Ok("one source needs clipping", (h1.on /\ ~h.on /\ (same \/ ~vel.fresh)) => h1.n > 0)
          \cup Ok("rising is never bad", (~pos.up \/ (vel.fresh /\ ~vel.up)) => ~fall)
          \cup Ok("kept for the probation time", (h.on /\ ~h1.on) => t + 1 - since >= Probation)
          \cup Ok("forgotten without evidence", (t + 1 - (IF fall THEN t + 1 ELSE lastFall) >= Probation) => ~h1.on)
          \cup Ok("no learning when bad", h.on => (v1 = var /\ b1 = bias))
          \cup Ok("no learning when clipped or violent", (clip \/ violent) => (v1 = var /\ b1 = bias))
Next == t < Horizon /\ \E clip, same, violent, learn \in BOOLEAN, pos, vel \in Obs : Step(clip, pos, vel, same, violent, learn)
Spec == Init /\ [][Next]_vars
Sound == broken = {}
Bounded == h.n \in 0..ClipFull
=============================================================================
