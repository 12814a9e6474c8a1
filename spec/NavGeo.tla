------------------------------- MODULE NavGeo -------------------------------
(* Plane geometry of way-point following: points are <<north, east>>. *)
EXTENDS FixMat
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]        \* > 0: b points to the right of a
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
N2(a) == Dot(a, a)
(* Track from s to t, vehicle at p *)
PastEnd(p, s, t) == Dot(Sub(t, p), Sub(t, s)) < 0
Side(p, s, t) == Cross(Sub(t, s), Sub(p, s))     \* cross-track distance times track length
(* unit vector towards the track, scaled by the track length *)
ToTrack(p, s, t) == LET d == Sub(t, s) IN IF Side(p, s, t) >= 0 THEN <<d[2], -d[1]>> ELSE <<-d[2], d[1]>>
ISqrt(n) == LET RECURSIVE F(_, _)
                F(lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN F(m, hi) ELSE F(lo, m - 1)
            IN F(0, 46340)
=============================================================================
