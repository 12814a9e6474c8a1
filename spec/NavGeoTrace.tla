----------------------------- MODULE NavGeoTrace -----------------------------
(* Recorded results of the way-point functions.  Distances 0.1 m, angles 1e-4 rad, unit vectors 1e-4. *)
EXTENDS NavGeo, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TwoPi == 62832
Pi == 31416
AngNear(a, b, tol) == Near(a, b, tol) \/ Near(a + TwoPi, b, tol) \/ Near(a - TwoPi, b, tol)
InPi(b) == b >= -Pi /\ b <= Pi
DTol(d) == 2 + RDiv(d, 200000)
Far(d) == d > 1000                 \* bearings are meaningful
BTol(d) == 3 + (IF d < 100000 THEN 200000 \div d ELSE 0)
Deg7(d) == RDiv(d, 10) + RDiv(RDiv(d, 10) * 112, 1000) - RDiv(d, 200000)    \* 1e-7 deg of arc -> 0.1 m
TNew == Is("new")
TPair == /\ Is("pair")
         /\ Near(Ev.d, Ev.ed, DTol(Ev.ed)) /\ Near(Ev.dr, Ev.d, DTol(Ev.d))
         /\ (Ev.same => Ev.d = 0) /\ (Ev.ed > 5 => Ev.d > 0)
         /\ InPi(Ev.b) /\ ((Far(Ev.ed) /\ Ev.ed < 190000000) => AngNear(Ev.b, Ev.eb, BTol(Ev.ed)))
         /\ Near(Ev.vn, Ev.en, DTol(Ev.ed)) /\ Near(Ev.ve, Ev.ee, DTol(Ev.ed))
         /\ (Abs(Ev.dlat) < 2000000 /\ Abs(Ev.dlon) < 2000000 /\ Ev.nowrap) =>
               /\ Near(Ev.fn, Deg7(Ev.dlat), 3 + Abs(Ev.fn) \div 2000)
               /\ Near(Ev.fe, RDiv(RDiv(Deg7(Ev.dlon), 2) * Ev.coslat, 5000), 3 + Abs(Ev.fe) \div 1000 + Abs(Ev.dlon) \div 200000)
               /\ Near(Ev.backlat, 0, 20 + Abs(Ev.dlat) \div 100000)
               /\ Near(Ev.backlon, 0, 20 + Abs(Ev.dlon) \div 100000 + 2000000 \div Max2(Ev.coslat, 1000))
         /\ Near(Ev.dxy, Ev.ed, DTol(Ev.ed)) /\ Near(Ev.dz, Abs(Ev.alt), 2) /\ Near(Ev.w, Ev.slant, DTol(Ev.slant))
TWp == /\ Is("wp")
       /\ Near(Ev.got, Abs(Ev.want), DTol(Abs(Ev.want)))
       /\ Near(Ev.d, Ev.got, DTol(Ev.got)) /\ InPi(Ev.b)
       /\ Far(Ev.got) /\ Ev.got < 190000000 => /\ AngNear(Ev.gb, IF Ev.want >= 0 THEN Ev.wb ELSE Ev.wb + Pi, BTol(Ev.got))
                                               /\ AngNear(Ev.b, Ev.gb, BTol(Ev.got))
TOnLine == /\ Is("online")
           /\ (Ev.want = 0 => Ev.atA)
           /\ Near(Ev.got, Abs(Ev.want), DTol(Abs(Ev.want)))
           /\ Far(Ev.got) /\ Ev.got < 190000000 => AngNear(Ev.gb, IF Ev.want >= 0 THEN Ev.wb ELSE Ev.wb + Pi, BTol(Ev.got))
(* a unit vector u (1e-4) along v of length len *)
Along(cb, sb, v, len) == Near(cb, RDiv(v[1] * 10000, len), 60 + 200000 \div len) /\ Near(sb, RDiv(v[2] * 10000, len), 60 + 200000 \div len)
TLine == /\ Is("line")
         /\ LET d == Sub(Ev.t, Ev.s)  len == ISqrt(N2(d))  e == Sub(Ev.t, Ev.p)  de == ISqrt(N2(e))
                along == RDiv(Dot(e, d), len)      \* distance still to go along the track
                x == RDiv(Side(Ev.p, Ev.s, Ev.t), len)
                tol == 3 + de \div 300 IN
            IF de < 1 THEN Ev.rc \in {0, -1}
            ELSE IF de <= 2 THEN Ev.rc \in {0, -1}
            ELSE /\ Ev.rc = 0
                 /\ (along > tol => ~Ev.past) /\ (along < -tol => Ev.past)
                 /\ Ev.past => Ev.dist = 0
                 /\ ~Ev.past => /\ Near(Ev.dist, x, tol + Abs(x) \div len)
                                /\ InPi(Ev.b)
                                /\ Abs(x) > tol => Along(Ev.cb, Ev.sb, ToTrack(Ev.p, Ev.s, Ev.t), len)
TCirc == /\ Is("circ")
         /\ IF Ev.rad < 1 THEN Ev.rc = -1
            ELSE LET dc == ISqrt(N2(Ev.p))  tol == 3 + dc \div 500 IN
                 /\ Ev.rc = 0 /\ ~Ev.past /\ InPi(Ev.b)
                 /\ Near(Ev.dist, Abs(Ev.rad - dc), tol)
                 /\ (dc > 50 /\ Abs(Ev.rad - dc) > tol) =>
                       Along(Ev.cb, Ev.sb, IF dc > Ev.rad THEN <<-Ev.p[1], -Ev.p[2]>> ELSE Ev.p, dc)
TLocal == /\ Is("local")
          /\ Near(Ev.dz, Abs(Ev.u[3]), 1)
          /\ Near(Ev.dxy, ISqrt(Ev.u[1] * Ev.u[1] + Ev.u[2] * Ev.u[2]), 2)
          /\ Near(Ev.d, ISqrt(Ev.u[1] * Ev.u[1] + Ev.u[2] * Ev.u[2] + Ev.u[3] * Ev.u[3]), 2)
TNext == TNew \/ TPair \/ TWp \/ TOnLine \/ TLine \/ TCirc \/ TLocal
TSpec == l = 1 /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
