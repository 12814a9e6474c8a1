---------------------------- MODULE GeoLookupTrace ----------------------------
EXTENDS GeoLookup, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TInit == Init /\ l = 1
TQuery == /\ l <= Len(Trace) /\ Ev.e = "q" /\ l' = l + 1
          /\ Query(Ev.lat, Ev.lon)
          /\ Near(Ev.drad, last'.d, 5) /\ Near(Ev.irad, last'.i, 5)
          /\ Near(Ev.sg, last'.s, 5) /\ Near(Ev.st, last'.s, 5)
          \* degrees are radians times 57.2958: compared in 10^-4 degree
          /\ Near(Ev.ddeg, RDiv(last'.d * 2865, 1000), 20 + Abs(last'.d) \div 4500)
          /\ Near(Ev.ideg, RDiv(last'.i * 2865, 1000), 20 + Abs(last'.i) \div 4500)
TNew == l <= Len(Trace) /\ Ev.e = "new" /\ l' = l + 1 /\ UNCHANGED last
TNext == TQuery \/ TNew
TSpec == TInit /\ [][TNext]_<<last, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
