------------------------------ MODULE GeoLookup ------------------------------
(* Bilinear interpolation in the 10-degree world magnetic tables.                            *)
(* lat, lon in 1/100 degree; results in 1/20 of a table unit.                                 *)
EXTENDS GeoTables, FixMat
Cell == 1000
NormLat(lat) == Clamp(lat, -9000, 9000)
NormLon(lon) == IF lon > 18000 THEN lon - 36000 ELSE IF lon < -18000 THEN lon + 36000 ELSE lon
(* index (from 1) of the lower corner of the cell; the last cell also owns its upper edge *)
LatIx(lat) == Min2((NormLat(lat) + 9000) \div Cell, 17) + 1
LonIx(lon) == Min2((NormLon(lon) + 18000) \div Cell, 35) + 1
Lerp20(a, b, w) == RDiv(a * Cell + (b - a) * w, Cell \div 20)
Lerp(a, b, w) == a + RDiv((b - a) * w, Cell)
Value(T, lat, lon) ==
  LET i == LatIx(lat)
      j == LonIx(lon)
      wy == NormLat(lat) + 9000 - (i - 1) * Cell
      wx == NormLon(lon) + 18000 - (j - 1) * Cell
  IN Lerp(Lerp20(T[i][j], T[i][j + 1], wx), Lerp20(T[i + 1][j], T[i + 1][j + 1], wx), wy)

VARIABLE last     \* last query with the value of each table
Query(lat, lon) == last' = [lat |-> lat, lon |-> lon, d |-> Value(DeclinationTable, lat, lon),
                            i |-> Value(InclinationTable, lat, lon), s |-> Value(StrengthTable, lat, lon)]
Init == last = [lat |-> 0, lon |-> 0, d |-> Value(DeclinationTable, 0, 0), i |-> Value(InclinationTable, 0, 0), s |-> Value(StrengthTable, 0, 0)]
-----------------------------------------------------------------------------
(* consequences a user relies on *)
Corners(T, lat, lon) == LET i == LatIx(lat) j == LonIx(lon) IN {T[i][j], T[i][j + 1], T[i + 1][j], T[i + 1][j + 1]}
Between(v, C) == (\E x \in C : v >= 20 * x - 1) /\ (\E x \in C : v <= 20 * x + 1)
Convex == /\ Between(last.d, Corners(DeclinationTable, last.lat, last.lon))
          /\ Between(last.i, Corners(InclinationTable, last.lat, last.lon))
          /\ Between(last.s, Corners(StrengthTable, last.lat, last.lon))
Periodic == \A T \in {DeclinationTable, InclinationTable, StrengthTable} :
              Abs(last.lon) <= 18000 =>
                /\ Abs(last.lon) # 18000 => Value(T, last.lat, last.lon + (IF last.lon < 0 THEN 36000 ELSE -36000)) = Value(T, last.lat, last.lon)
                /\ Value(T, last.lat, 18000) = Value(T, last.lat, -18000)
PoleClamp == \A T \in {DeclinationTable, InclinationTable, StrengthTable} :
              Value(T, 9000 + Abs(last.lat), last.lon) = Value(T, 9000, last.lon)
Plausible == Abs(last.d) <= 20 * 31416 /\ Abs(last.i) <= 20 * 15708 /\ last.s > 20 * 2000 /\ last.s < 20 * 7000
=============================================================================
