------------------------------ MODULE NavGeoMC ------------------------------
(* Every vehicle/track configuration on a small grid: the definitions used to judge the code are the geometric ones. *)
EXTENDS NavGeo
CONSTANT G
VARIABLES p, s, t
Pts == (-G..G) \X (-G..G)
Init == p \in Pts /\ s \in Pts /\ t \in Pts /\ s # t
Next == FALSE /\ UNCHANGED <<p, s, t>>
Spec == Init /\ [][Next]_<<p, s, t>>
LineDist2(q) == Side(q, s, t) * Side(q, s, t)        \* squared distance to the infinite line times |track|^2
(* the foot of the perpendicular, times |track|^2 *)
Foot == LET d == Sub(t, s)  k == Dot(Sub(p, s), d) IN <<s[1] * N2(d) + k * d[1], s[2] * N2(d) + k * d[2]>>
ReverseFlips == Side(p, t, s) = -Side(p, s, t)
OnTrackIffZero == (Side(p, s, t) = 0) = (Foot = <<p[1] * N2(Sub(t, s)), p[2] * N2(Sub(t, s))>>)
PastEndIsBeyond == PastEnd(p, s, t) = (Dot(Sub(p, s), Sub(t, s)) > N2(Sub(t, s)))
NotBothEnds == ~(PastEnd(p, s, t) /\ PastEnd(p, t, s))
Pythagoras == LET e == Sub(t, p)  d == Sub(t, s) IN LineDist2(p) + Dot(e, d) * Dot(e, d) = N2(e) * N2(d)
(* moving towards the track reduces the distance by the distance moved: the direction is the perpendicular one *)
PointsToTrack == LET v == ToTrack(p, s, t) IN Dot(v, Sub(t, s)) = 0 /\ Cross(Sub(t, s), v) * Side(p, s, t) <= 0
SqrtOK == LET n == N2(p) IN ISqrt(n) * ISqrt(n) <= n /\ (ISqrt(n) + 1) * (ISqrt(n) + 1) > n
=============================================================================
