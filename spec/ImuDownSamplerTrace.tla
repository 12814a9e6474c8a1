------------------------- MODULE ImuDownSamplerTrace -------------------------
EXTENDS ImuDownSampler, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<imuvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TInit == Init /\ l = 1
Raw == [ta |-> Ev.ta, tv |-> Ev.tv, clip |-> Ev.clip, R |-> Ev.R, dv |-> Ev.dv, t |-> Ev.t]
(* the threshold is compared in single precision by the code: within 100 units (1 us) either answer is right *)
Marginal(a) == Near(a.ta, Target - adj, 100)
TRaw == /\ Is("raw")
        /\ LET a == Accum(IF retr THEN Zero ELSE acc, Raw) IN
           /\ Marginal(a) \/ Ev.ready = Due(a)
           /\ Update(Raw, Ev.ready, Ev.get)
           /\ (Ev.ready /\ Ev.get) =>
                 /\ Near(Ev.ota, a.ta, 60) /\ Near(Ev.otv, a.tv, 60)
                 /\ Ev.ot = a.t
                 /\ Ev.oclip = a.clip
                 /\ NearSeq(Ev.oR, a.R, 6 + 3 * a.n)
                 /\ NearSeq(Ev.odv, a.dv, 6 + 4 * a.n)
TNew == Is("new") /\ acc' = Zero /\ adj' = 0 /\ retr' = FALSE /\ sum' = [rx |-> 0, tx |-> 0, n |-> 0, clamped |-> FALSE]
TNext == TRaw \/ TNew
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
