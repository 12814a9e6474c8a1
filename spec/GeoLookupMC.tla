----------------------------- MODULE GeoLookupMC -----------------------------
EXTENDS GeoLookup
CONSTANT Step
Next == \E a \in -9..9, b \in -18..18, da, db \in {0, Step} : Query(a * 1000 + da, b * 1000 + db)
Spec == Init /\ [][last.lat = 0 /\ last.lon = 0 /\ Next]_last
=============================================================================
