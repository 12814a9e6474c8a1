--------------------------- MODULE RangeFinderTrace ---------------------------
EXTENDS RangeFinder, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<rfvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TInit == Init /\ l = 1
Obs == /\ Ev.healthy = valid' /\ Ev.dataHealthy = (ready' /\ valid') /\ Ev.regular = regular'
       /\ Near(Ev.cos, cosTilt', 4)
       /\ Near(Ev.dist, RDiv(smp'.rng * cosTilt', 10000), 3 + smp'.rng \div 2000)
       /\ Ev.rng = smp'.rng /\ Ev.min = cfg'.lo /\ Ev.max = cfg'.hi
TNew == Is("new") /\ smp' = [t |-> 0, rng |-> 0, q |-> 0] /\ ready' = FALSE /\ valid' = FALSE /\ regular' = FALSE
        /\ tBad' = 0 /\ tValid' = 0 /\ lpf' = 0 /\ stuck' = [is |-> FALSE, lo |-> 0, hi |-> 0]
        /\ cfg' = [lo |-> 0, hi |-> 0, hyst |-> 0, cosMax |-> 7071, so |-> 0, co |-> -10000]
        /\ cosTilt' = 0 /\ now' = 0
TSample == Is("sample") /\ SetSample([t |-> Ev.t, rng |-> Ev.r, q |-> Ev.q]) /\ Obs
TReady == Is("ready") /\ SetReady(Ev.v) /\ Obs
TValidity == Is("validity") /\ SetValidity(Ev.v) /\ Obs
TRange == Is("setrange") /\ SetRange(Ev.r) /\ Obs
TCfg == Is("cfg") /\ SetCfg([lo |-> Ev.lo, hi |-> Ev.hi, hyst |-> Ev.hyst, cosMax |-> Ev.cosMax, so |-> Ev.so, co |-> Ev.co]) /\ Obs
TCheck == Is("check") /\ Check(Ev.t, RDiv(Ev.r20 * cfg.so + Ev.r22 * cfg.co, 10000)) /\ Obs
TNext == TNew \/ TSample \/ TReady \/ TValidity \/ TRange \/ TCfg \/ TCheck
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
