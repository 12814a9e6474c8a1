-------------------------- MODULE RingBufferTrace --------------------------
(* Is the recorded sequence of calls and results of the real buffer a behaviour of RingBuffer? *)
EXTENDS RingBuffer, Json, IOUtils, TLC, Integers
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<bufvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TInit == Init /\ l = 1

(* queries logged with every event: capacity, and (when not empty) the ids found by walking the buffer, oldest, newest *)
Queries ==
  /\ Ev.len = cap'
  /\ q' # <<>> => /\ Ev.oldest = q'[1].id
                  /\ Ev.newest = q'[Len(q')].id
                  /\ Len(Ev.walk) >= Len(q')
                  /\ \A i \in 1..Len(q') : Ev.walk[i] = q'[i].id

TNew == Is("new") /\ q' = <<>> /\ cap' = Ev.n /\ last' = [op |-> "none"] /\ Queries
TPush == Is("push") /\ Push(Ev.t, Ev.id) /\ Queries
TPop == Is("pop") /\ Pop(Ev.T) /\ Ev.ok = last'.ok /\ (Ev.ok => Ev.id = last'.item.id /\ Ev.t = last'.item.t) /\ Queries
TAlloc == Is("alloc") /\ Allocate(Ev.n) /\ Ev.ok = last'.ok /\ Ev.valid = TRUE /\ Queries
TNext == TNew \/ TPush \/ TPop \/ TAlloc
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
