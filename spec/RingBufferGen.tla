--------------------------- MODULE RingBufferGen ---------------------------
(* Behaviours of RingBuffer, printed as call sequences to be replayed into the real buffer. *)
EXTENDS RingBuffer, Json, TLC, Integers
CONSTANTS Caps, Depth, Unit
VARIABLES hist, now, nid
gvars == <<bufvars, hist, now, nid>>
GInit == Init /\ hist = <<>> /\ now = 0 /\ nid = 1
H(x) == hist' = Append(hist, x)
GPush == \E dt \in {0, 1, 2, 3, 7, 12, 40, 81} :
           /\ Push((now + dt) * Unit, nid) /\ H(<<"push", (now + dt) * Unit>>) /\ now' = now + dt /\ nid' = nid + 1
(* requests near stored time stamps and near the staleness limit *)
GPop == \E T \in {x.t + d : x \in {q[i] : i \in 1..Len(q)} \cup {[t |-> now * Unit, id |-> 0]},
                            d \in {-Unit, -1, 0, 1, Window - 1, Window, Window + 1, Unit}} :
           T >= 0 /\ Pop(T) /\ H(<<"pop", T>>) /\ UNCHANGED <<now, nid>>
GAlloc == \E n \in Caps : (n # cap \/ Len(hist) < 4) /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)][1] # "alloc")
           /\ Allocate(n) /\ H(<<"alloc", n>>) /\ UNCHANGED <<now, nid>>
GNext == Len(hist) < Depth /\ (GPush \/ GPop \/ (Len(hist) % 17 = 0 /\ GAlloc))
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) = Depth => PrintT(<<"TRACE", ToJson(hist)>>)
=============================================================================
