---------------------------- MODULE ResetsTrace ----------------------------
(* Recorded flights, one record per filter step.  Axes: velocity N E, position N E, velocity D, position D (1e3); counters: velNE posNE velD posD quat. *)
EXTENDS Resets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p
vars == <<l, p>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
ToSet(q) == {q[k] : k \in 1..Len(q)}
None == [t |-> -1]
Init == l = 1 /\ p = None
New == Is("new") /\ p' = None
Par == Is("par") /\ UNCHANGED p
(* recent largest tracking errors of the outputs (they feed an integral correction) *)
Max2(x, y) == IF x > y THEN x ELSE y
Slack(e) == [k \in 1..3 |-> IF p = None THEN e.ote[k] ELSE Max2(e.ote[k], p.slk[k] - p.slk[k] \div 1024)]
(* recent velocity resets: the buffered positions were integrated with the velocity before the reset *)
VJump(e) == IF p = None THEN 0 ELSE
            LET n == IF \E k \in {1, 3} : e.rc[k] # p.rc[k] THEN Max2(AbsV(e.rd[1]) + AbsV(e.rd[2]) + AbsV(e.rd[5]), AbsV(e.vp[3] - p.vp[3])) ELSE 0
            IN Max2(n, p.vj - (p.vj + 63) \div 64)
Rec(e) == [vj |-> VJump(e), slk |-> Slack(e), t |-> e.t, rc |-> e.rc, rd |-> e.rd, rq |-> e.rq, vp |-> e.vp, q |-> e.q, op |-> e.op, ov |-> e.ov3, oq |-> e.oq, ote |-> e.ote, oac |-> e.oac, ovd |-> e.ovd]
Cnt == <<1, 1, 2, 2, 3, 4>>       \* axis -> counter
StIx == <<1, 2, 4, 5, 3, 6>>      \* axis -> entry of vp = vN vE vD pN pE pD
IsPos(a) == a \in {3, 4, 6}
Ax(a) == CASE a \in {1, 3} -> 1 [] a \in {2, 4} -> 2 [] OTHER -> 3
Dt == (Ev.t - p.t) \div 100        \* 1e4 s
(* motion of the step: positions by the mean velocity, velocities not at all *)
Exp(a, v0, v1) == IF IsPos(a) THEN ((v0 + v1) * Dt) \div 20000 ELSE 0
Moved(a) == Ev.vp[StIx[a]] - p.vp[StIx[a]] - Exp(a, p.vp[Ax(a)], Ev.vp[Ax(a)])
OutMoved(a) == IF IsPos(a) THEN Ev.op[Ax(a)] - p.op[Ax(a)] - Exp(a, p.ov[Ax(a)], Ev.ov3[Ax(a)])
               ELSE Ev.ov3[Ax(a)] - p.ov[Ax(a)] - (((Ev.oac[Ax(a)] + p.oac[Ax(a)]) \div 20) * Dt) \div 1000
OutTol(a) == (IF IsPos(a) THEN 60 + (VJump(Ev) * Dt) \div 10000 ELSE 250 + ((Max2(AbsV(Ev.oac[Ax(a)]), AbsV(p.oac[Ax(a)])) \div 10) * Dt) \div 1000) + Slack(Ev)[IF IsPos(a) THEN 3 ELSE 2] \div 600
(* the delayed outputs are shifted too: a reset adds nothing to the tracking error beyond what fusion and motion moved *)
Resid(a) == LET k == Inc(p.rc[Cnt[a]], Ev.rc[Cnt[a]]) IN IF k = 0 THEN AbsV(Moved(a)) ELSE IF k = 1 THEN AbsV(Moved(a) - Ev.rd[a]) ELSE 8000000
Cap(x) == IF x > 8000000 THEN 8000000 ELSE x
TrackOK == /\ Ev.ote[3] <= p.ote[3] + 100 * Cap(Resid(3) + Resid(4) + Resid(6) + (VJump(Ev) * Dt) \div 5000) + 10000
           /\ Ev.ote[2] <= p.ote[2] + 100 * Cap(Resid(1) + Resid(2) + Resid(5)) + 15000 + (IF p.ote[2] > 100000 THEN p.ote[2] \div 4 ELSE 0)
Tol(a, d) == (IF a >= 5 THEN 1500 ELSE 700) + AbsV(d) \div 3
(* a reset to zero or to the last known position may be followed by a fusion that takes much of it back *)
Late(a) == IF (a \in {1, 2, 5} /\ "reset_vel_to_zero" \in ToSet(Ev.ie)) \/ (a \in {3, 4} /\ "reset_pos_to_last_known" \in ToSet(Ev.ie)) THEN AbsV(Ev.rd[a]) ELSE 0
(* the rate of change of the vertical position follows vertical velocity resets *)
VertOK == LET k == Inc(p.rc[3], Ev.rc[3])
              tol == OutTol(5) + 100 + (Cap(Resid(5)) + Slack(Ev)[2] \div 100 + Cap(AbsV(Moved(6) - (IF p.rc[4] = Ev.rc[4] THEN 0 ELSE Ev.rd[6]))) + Slack(Ev)[3] \div 100) \div 10
          IN (k = 1 => Near(Ev.ovd - p.ovd, Ev.rd[5], tol))
             /\ ((k = 0 /\ p.rc[4] = Ev.rc[4]) => AbsV(Ev.ovd - p.ovd - (((Ev.oac[3] + p.oac[3]) \div 20) * Dt) \div 1000) <= tol)
(* quaternions at 1e4 *)
Sc(q) == [k \in 1..4 |-> q[k] \div 10]
QMul(a, b) == << (a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4]) \div 10000, (a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3]) \div 10000,
                 (a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2]) \div 10000, (a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1]) \div 10000 >>
QNear(a, b, tol) == (\A k \in 1..4 : Near(a[k], b[k], tol)) \/ (\A k \in 1..4 : Near(a[k], -b[k], tol))
QuatOK == LET k == Inc(p.rc[5], Ev.rc[5]) IN
          IF k = 0 THEN Ev.rq = p.rq /\ QNear(Sc(p.oq), Sc(Ev.oq), 250 + Ev.ote[1] \div 50)
          ELSE IF k = 1 THEN QNear(QMul(Sc(Ev.rq), Sc(p.q)), Sc(Ev.q), 800) /\ QNear(QMul(Sc(Ev.rq), Sc(p.oq)), Sc(Ev.oq), 250 + Ev.ote[1] \div 50)
          ELSE TRUE
(* announced resets are counted, counted resets are announced (requests from outside come as calls) *)
VelEv == {"reset_vel_to_gps", "reset_vel_to_flow", "reset_vel_to_vision", "reset_vel_to_zero"}
PosEv == {"reset_pos_to_last_known", "reset_pos_to_gps", "reset_pos_to_vision"}
Card(S) == LET f[T \in SUBSET S] == IF T = {} THEN 0 ELSE 1 + f[T \ {CHOOSE x \in T : TRUE}] IN f[S]
Announced == LET ie == ToSet(Ev.ie)
                 v == ie \cap VelEv
                 q == ie \cap PosEv
                 nv == Inc(p.rc[1], Ev.rc[1])
                 np == Inc(p.rc[2], Ev.rc[2])
             IN /\ (nv > 0) = (v # {}) /\ nv >= Card(v)
                /\ (q # {} => np >= Card(q)) /\ (np > 0 => (q # {} \/ Ev.c # <<>>))
                /\ Ev.c = <<>> => (nv <= 2 * Card(v) /\ np <= 2 * Card(q) + (IF Ev.c # <<>> THEN 1 ELSE 0))
                /\ Inc(p.rc[3], Ev.rc[3]) <= 3 /\ Inc(p.rc[4], Ev.rc[4]) <= 2 + (IF Ev.c # <<>> THEN 1 ELSE 0) /\ Inc(p.rc[5], Ev.rc[5]) <= 2
Step == /\ Is("u")
        /\ (p # None /\ Ev.t - p.t < 30000) =>
             /\ \A a \in 1..6 : AxisOK(p.rc[Cnt[a]], Ev.rc[Cnt[a]], p.rd[a], Ev.rd[a], Moved(a), OutMoved(a), Tol(a, Ev.rd[a]) + Late(a), OutTol(a))
             /\ QuatOK
             /\ TrackOK
             /\ VertOK
             /\ Announced
        /\ p' = Rec(Ev)
Next == New \/ Par \/ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
