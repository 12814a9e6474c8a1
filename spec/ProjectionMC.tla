----------------------------- MODULE ProjectionMC -----------------------------
(* Every order of initialise / project / reproject on two projections over a small grid of points (a periodic
   longitude axis of W cells): an answer is given exactly after initialisation and the two conversions are inverse. *)
EXTENDS Projection
CONSTANTS W, MaxN
VARIABLES ans, n
Lat == -2..2
Lon == 0..W - 1
HalfWrap(d) == LET m == ((d % W) + W) % W IN IF m > W \div 2 THEN m - W ELSE m
Loc(o, q) == <<q[1] - o[1], HalfWrap(q[2] - o[2])>>
Glob(o, x) == <<o[1] + x[1], ((((o[2] + x[2]) % W) + W) % W)>>
None == [rc |-> -1, p |-> 0, q |-> <<0, 0>>, x |-> <<0, 0>>]
MCInit == Init /\ ans = None /\ n = 0
MCNext == n < MaxN /\ n' = n + 1 /\
  \/ \E p \in Proj, a \in Lat \X Lon, t \in 0..1 : InitProj(p, a, t) /\ ans' = None
  \/ \E p \in Proj, q \in Lat \X Lon :
       Query(p) /\ ans' = IF RcOf(p) = 0 THEN [rc |-> 0, p |-> p, q |-> q, x |-> Loc(origin[p], q)] ELSE None
MCSpec == MCInit /\ [][MCNext]_<<pvars, ans, n>>
Inverse == ans.rc = 0 => Glob(origin[ans.p], ans.x) = ans.q
OriginIsZero == ans.rc = 0 => (ans.q = origin[ans.p] <=> ans.x = <<0, 0>>)
Refuses == ans.rc = 0 => inited[ans.p]
=============================================================================
