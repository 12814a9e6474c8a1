------------------------------ MODULE OriginMC ------------------------------
(* One horizontal axis: messages, requests, motion and loss of aiding in every order. *)
EXTENDS Origin
CONSTANTS Span
VARIABLES O, p, true, aiding, op, before
vars == <<O, p, true, aiding, op, before>>
R == (-Span)..Span
Init == O = OInit(0) /\ p = 0 /\ true \in R /\ aiding = FALSE /\ op = "none" /\ before = <<OInit(0), 0>>
Keep == before' = <<O, p>>
Move == \E d \in {-1, 1} : true + d \in R /\ p + d \in (-4 * Span)..(4 * Span) /\ true' = true + d /\ p' = p + d /\ op' = "move" /\ Keep /\ UNCHANGED <<O, aiding>>
Good == O' = AutoSet(O, true, p, aiding) /\ op' = "gps" /\ Keep /\ UNCHANGED <<p, true, aiding>>
Ask == \E n \in R : O' = Request(O, n) /\ p' = p + RequestShift(O, n, aiding) /\ op' = "ask" /\ p' \in (-4 * Span)..(4 * Span) /\ Keep /\ UNCHANGED <<true, aiding>>
Aid == O.ned /\ ~aiding /\ aiding' = TRUE /\ p' = true - O.o /\ op' = "aid" /\ Keep /\ UNCHANGED <<O, true>>
AidFlow == ~aiding /\ aiding' = TRUE /\ op' = "aid" /\ Keep /\ UNCHANGED <<O, true, p>>
Drop == aiding /\ aiding' = FALSE /\ op' = "drop" /\ Keep /\ UNCHANGED <<O, true, p>>
Next == Move \/ Good \/ Ask \/ Aid \/ AidFlow \/ Drop
Spec == Init /\ [][Next]_vars
OnceSet == op = "gps" => (before[1].ned => O = before[1]) /\ O.ned
Maps == (op = "gps" /\ ~before[1].map) => O.o + (IF aiding THEN p ELSE 0) = true
OnlyRequest == O.o # before[1].o => op \in {"ask", "gps"}
SamePlace == (op = "ask" /\ before[1].map /\ aiding) => O.o + p = before[1].o + before[2]
=============================================================================
