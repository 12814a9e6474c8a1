--------------------------- MODULE AlphaFilterTrace ---------------------------
(* Recorded calls of AlphaFilter<float> (component 1) and AlphaFilter<Vector3f> (components 2..4), which receive
   the same calls.  Values scaled by 100.  Every step starts from the observed previous state, so rounding does
   not accumulate. *)
EXTENDS AlphaFilter, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, v
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Cmp == 1..4
TInit == Init /\ l = 1 /\ v = <<0, 0, 0, 0>>
Obs == v' = Ev.s /\ s' = Ev.s[1]
Tol(x, old) == 2 + Abs(x - old) \div AS
TNew == Is("new") /\ Obs /\ v' = <<0, 0, 0, 0>> /\ a' = Ev.a       \* constructed with this weight, state zero
TAlpha == Is("alpha") /\ Obs /\ v' = v /\ a' = Ev.a
TPar == /\ Is("par") /\ Obs /\ v' = v
        /\ a' = IF Ev.dt + Ev.tc > 0 THEN Weight(Ev.dt, Ev.tc) ELSE a
TReset == Is("reset") /\ Obs /\ v' = Ev.x /\ UNCHANGED a
TUpd == /\ Is("upd") /\ Obs /\ UNCHANGED a
        /\ Ev.r = v'                                              \* update returns the new state
        /\ \A i \in Cmp : /\ Near(v'[i], Blend(v[i], Ev.x[i], a), Tol(Ev.x[i], v[i]))
                          /\ (a >= 0 /\ a <= AS) => Between(v'[i], v[i], Ev.x[i])
                          /\ (a = AS /\ Ev.one) => v'[i] = Ev.x[i]
TNext == TNew \/ TAlpha \/ TPar \/ TReset \/ TUpd
TSpec == TInit /\ [][TNext]_<<avars, l, v>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
