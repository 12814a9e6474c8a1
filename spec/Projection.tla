------------------------------ MODULE Projection ------------------------------
(* Life cycle of the local map projections: each projection object is unusable until initialised, then answers
   relative to its latest reference.  Points are pairs; Loc/Glob are the two conversions. *)
EXTENDS FixMat
CONSTANTS Proj
VARIABLES inited, origin, stamp
pvars == <<inited, origin, stamp>>
Init == inited = [p \in Proj |-> FALSE] /\ origin = [p \in Proj |-> <<0, 0>>] /\ stamp = [p \in Proj |-> 0]
InitProj(p, at, ts) == /\ inited' = [inited EXCEPT ![p] = TRUE]
                       /\ origin' = [origin EXCEPT ![p] = at]
                       /\ stamp' = [stamp EXCEPT ![p] = ts]
Query(p) == UNCHANGED pvars
RcOf(p) == IF inited[p] THEN 0 ELSE -1
=============================================================================
