------------------------------- MODULE Origin -------------------------------
(* The global origin of the local frame: set once from GNSS, moved only by request.  Works on vectors of lengths (mm); the
   origin o and the vehicle's global position are both relative to a fixed point, the local position p is relative to o. *)
EXTENDS Integers
(* map: a projection exists (GNSS or request); ned: the origin has been declared valid *)
OInit(o) == [map |-> FALSE, ned |-> FALSE, o |-> o]
(* good GNSS at position gps while the local position is p *)
AutoSet(O, gps, p, aiding) == IF O.ned THEN O ELSE [O EXCEPT !.ned = TRUE, !.map = TRUE, !.o = IF O.map THEN O.o ELSE IF aiding THEN gps - p ELSE gps]
(* a request for a new origin: the local position moves against it *)
Request(O, new) == [O EXCEPT !.map = TRUE, !.o = new]
RequestShift(O, new, aiding) == IF O.map /\ aiding THEN O.o - new ELSE 0
(* the height of the origin: always taken from GNSS when it is set *)
AutoAlt(alt, down) == alt + down
=============================================================================
