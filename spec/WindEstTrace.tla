----------------------------- MODULE WindEstTrace -----------------------------
(* Recorded calls of the real estimator against WindEst, plus the numeric meaning of each step.
   Speeds in cm/s, variances in 10^-4 (m/s)^2, scale in 10^-4, ratio = innov^2/(gate^2 var) in 10^-4. *)
EXTENDS WindEst, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, est, par,
          calm \* ordinary noise settings only since the last start
tvars == <<wvars, l, est, par, calm>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Zero == [w |-> <<0, 0>>, v |-> <<0, 0>>, s |-> 0, ti |-> 0, bi |-> 0]
Par0 == [enf |-> -1, q |-> 1000, std |-> FALSE]
TInit == Init /\ l = 1 /\ est = Zero /\ par = Par0 /\ calm = FALSE

Obs == [w |-> Ev.w, v |-> Ev.v, s |-> Ev.s, ti |-> Ev.ti, bi |-> Ev.bi]
Same == est' = est
Flags == Ev.valid = valid' /\ Ev.rst = rst'
VarOK == est'.v[1] >= 0 /\ est'.v[2] >= 0
Sq(x) == x * x

(* a start puts the wind on the line through the ground velocity, an airspeed away from it *)
StartOK(tas) ==
  LET rx == Ev.vel[1] - est'.w[1]   ry == Ev.vel[2] - est'.w[2]
      cross == rx * Ev.vel[2] - ry * Ev.vel[1]
      dot == rx * Ev.vel[1] + ry * Ev.vel[2]
      sp == Abs(Ev.vel[1]) + Abs(Ev.vel[2]) + Abs(rx) + Abs(ry)
  IN /\ Abs(cross) <= 3 * sp /\ (Abs(tas) > 10 => (dot > 0) = (tas > 0))
     /\ Abs(Sq(rx) + Sq(ry) - Sq(tas)) <= 6 * (Abs(tas) + 10)
     /\ est'.s = 10000 /\ VarOK

(* squared horizontal+vertical air velocity with the previous wind *)
Air2 == Sq(Ev.vel[1] - est.w[1]) + Sq(Ev.vel[2] - est.w[2]) + Sq(Ev.vel[3])
TasInnovOK == \* (tas - innov) = scale * |air velocity|
  LET p == Ev.tas - est'.ti
      q == RDiv(p * 1000, Max2(est.s \div 10, 1)) IN
  est.s >= 5000 /\ Abs(p) < 20000 => Abs(Sq(q) - Air2) <= (Abs(q) + 100) * (20 + Abs(q) \div 250)

Fused == /\ VarOK /\ est'.v[1] <= 250000 /\ est'.v[2] <= 250000
         /\ IF par.enf >= 0 THEN Near(est'.s, par.enf, 1) ELSE est'.s >= 0
         \* an accepted measurement never makes the wind less certain (beyond the 25 cap and rounding)
         /\ par.std /\ calm => est'.v[1] <= est.v[1] + 3 /\ est'.v[2] <= est.v[2] + 3
InnovOK(k) == IF k = "tas" THEN Ev.nanin \/ TasInnovOK ELSE Near(est'.bi, Ev.bexp, 12 + Abs(Ev.bexp) \div 200)
OtherInnov(k) == IF k = "tas" THEN est'.bi = est.bi ELSE est'.ti = est.ti
NumOK(k) ==
  CASE act' \in {"idle", "skip", "nostart", "unusable"} -> Same
    [] act' = "predict" -> /\ est'.w = est.w /\ est'.s = est.s /\ est'.ti = est.ti /\ est'.bi = est.bi
                           /\ LET dt == RDiv(tPred' - tPred, 10000)   \* 10 ms
                                  g == RDiv(RDiv(Sq(Min2(dt, 3000)), 100) * par.q, 100)
                              IN dt < 3000 => Near(est'.v[1], est.v[1] + g, 5 + g \div 20) /\ Near(est'.v[2], est.v[2] + g, 5 + g \div 20)
    [] act' = "start" -> StartOK(IF k = "tas" THEN Ev.tas ELSE Ev.spd)
    [] act' = "restart" -> StartOK(IF k = "tas" THEN Ev.tas ELSE Ev.spd) /\ InnovOK(k) /\ OtherInnov(k)
    [] act' \in {"reject", "lost"} -> est'.w = est.w /\ est'.v = est.v /\ est'.s = est.s /\ InnovOK(k) /\ OtherInnov(k)
    [] act' = "fuse" -> /\ InnovOK(k) /\ OtherInnov(k)
                        /\ (valid' => Fused)
                        /\ (valid' /\ Ev.big /\ calm => Ev.moved)
                        \* optimal weighting: the residual shrinks by noise / innovation variance (to first order)
                        /\ (valid' /\ par.enf < 0 /\ par.std /\ calm /\ est'.s > 0 /\ Abs(Ev.in4) < 60000 /\ Ev.ratio < 5000 /\ (k = "beta" => Abs(Ev.in4) < 1000 /\ Abs(Ev.rx) > 8000) => Near(Ev.post, Ev.pex, 60 + Abs(Ev.in4) \div 6))
    [] OTHER -> FALSE

TNew == Is("new") /\ valid' = FALSE /\ rst' = FALSE /\ tTas' = 0 /\ tBeta' = 0 /\ tPred' = 0 /\ rejTas' = 0 /\ rejBeta' = 0
        /\ act' = "none" /\ est' = Zero /\ par' = Par0
TPar == Is("par") /\ par' = [enf |-> Ev.enf, q |-> Ev.q, std |-> Ev.std] /\ UNCHANGED <<wvars, est>>
TUpdate == Is("update") /\ est' = Obs /\ par' = par /\ Update(Ev.t) /\ Flags /\ NumOK("none")
Fast == CanStart(Sq(Ev.vel[1]) + Sq(Ev.vel[2]))
TFuse == \E k \in {"tas", "beta"} :
           /\ Is(k) /\ est' = Obs /\ par' = par
           /\ LET Rejs == IF Near(Ev.ratio, 10000, 40) THEN BOOLEAN ELSE {Ev.ratio > 10000}
                  Uses == IF k = "tas" THEN {TRUE} ELSE IF Near(Abs(Ev.rx), 100, 3) THEN BOOLEAN ELSE {Abs(Ev.rx) >= 100}
                  Sanes == IF Ev.nanin \/ Ev.v[1] < 0 \/ Ev.v[2] < 0 THEN {FALSE} ELSE IF calm THEN {TRUE} ELSE BOOLEAN
              IN \E rej \in Rejs, us \in Uses, sane \in Sanes : Fuse(k, Ev.t, Fast, us, rej, Ev.iv < 0, sane)
           /\ Flags /\ NumOK(k)
TCalm == calm' = IF act' \in {"start", "restart", "none"} THEN par'.std ELSE calm /\ par'.std
TNext == (TNew \/ TPar \/ TUpdate \/ TFuse) /\ TCalm
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
