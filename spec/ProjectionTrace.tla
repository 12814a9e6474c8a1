---------------------------- MODULE ProjectionTrace ----------------------------
(* Recorded calls of map_projection_* against Projection plus the metric meaning of each answer.
   lat/lon 1e-6 deg; dlat/dlon 1e-7 deg; xc, yc cm; x, y, ex, ey, d metres. *)
EXTENDS Projection, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TInit == Init /\ l = 1
P == Ev.p
Refuse == Ev.rc = -1 /\ ~Ev.touched
(* one 1e-7 degree of latitude is 1.11195 cm *)
Cm(d) == d + RDiv(d * 112, 1000) - RDiv(d, 20000)
NearTol == 60
TNew == Is("new") /\ inited' = [p \in Proj |-> FALSE] /\ origin' = [p \in Proj |-> <<0, 0>>] /\ stamp' = [p \in Proj |-> 0]
TIni == Is("init") /\ Ev.rc = 0 /\ InitProj(P, <<Ev.lat, Ev.lon>>, Ev.ts)
TRef == /\ Is("ref") /\ Query(P) /\ Ev.inited = inited[P] /\ Ev.rc = RcOf(P)
        /\ IF inited[P] THEN Near(Ev.lat, origin[P][1], 1) /\ Near(Ev.lon, origin[P][2], 1) /\ Ev.ts = stamp[P]
           ELSE ~Ev.touched
LongTol(d) == 2 + RDiv(d, 50000)
TProj == /\ Is("proj") /\ Query(P)
         /\ IF ~inited[P] THEN Refuse /\ Ev.rc2 = -1 /\ ~Ev.touched2
            ELSE /\ Ev.rc = 0 /\ Ev.rc2 = 0
                 \* great-circle distance and direction are preserved
                 /\ Near(Ev.x, Ev.ex, LongTol(Ev.d)) /\ Near(Ev.y, Ev.ey, LongTol(Ev.d))
                 \* close to the reference: metric north and east displacements
                 /\ (Abs(Ev.dlat) <= 1000000 /\ Abs(Ev.dlon) <= 1000000 /\ Ev.coslat >= 3000) =>
                       /\ Near(Ev.xc, Cm(Ev.dlat), NearTol + 4000)
                       /\ Near(Ev.yc, RDiv(RDiv(Cm(Ev.dlon), 10) * Ev.coslat, 1000), NearTol + Abs(Ev.dlon) \div 2000 + 400)
                 /\ (Ev.dlat = 0 /\ Ev.dlon = 0) => Ev.xc = 0 /\ Ev.yc = 0
                 /\ (Abs(Ev.dlat) > 100 /\ Abs(Ev.dlon) < Abs(Ev.dlat) /\ Ev.d < 100000) => (Ev.xc > 0) = (Ev.dlat > 0)
                 /\ (Ev.coslat > 1000 /\ Abs(Ev.dlon) > 1000 /\ Ev.d < 15000000) => (Ev.yc > 0) = (Ev.dlon > 0)
                 \* reprojecting returns the point
                 /\ Ev.d < 15000000 => Ev.back <= 5 + RDiv(Ev.d, 20000)
TRep == /\ Is("rep") /\ Query(P)
        /\ IF ~inited[P] THEN Refuse
           ELSE /\ Ev.rc = 0 /\ Ev.range
                /\ Ev.d < 15000000 => /\ Near(Ev.rx, Ev.x, LongTol(Ev.d)) /\ Near(Ev.ry, Ev.y, LongTol(Ev.d))
                                      /\ Near(Ev.bx, Ev.x, LongTol(Ev.d)) /\ Near(Ev.by, Ev.y, LongTol(Ev.d))
                /\ Ev.d = 0 => Ev.mlat = 0 /\ Ev.mlon = 0
TNext == TNew \/ TIni \/ TRef \/ TProj \/ TRep
TSpec == TInit /\ [][TNext]_<<pvars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
