---------------------------- MODULE RangeFinderMC ----------------------------
EXTENDS RangeFinder
CONSTANT MaxT
VARIABLE fresh
MCInit == Init /\ fresh = FALSE
Samp == \E r \in {1, 5, 8}, q \in {0, 1}, age \in {0, 1} : now >= age /\ ~fresh /\ fresh' = TRUE
           /\ smp.t < now - age /\ SetSample([t |-> now - age, rng |-> r, q |-> q])
Tick == \E d \in {1, 3}, ct \in {5, 9} : now + d <= MaxT /\ Check(now + d, ct) /\ fresh' = FALSE
Old == ready /\ SetReady(FALSE) /\ UNCHANGED fresh
Conf == now = 0 /\ cfg.hi = 0 /\ \E h \in {0, 2} : SetCfg([lo |-> 1, hi |-> 6, hyst |-> h, cosMax |-> 7, so |-> 0, co |-> 1]) /\ UNCHANGED fresh
MCSpec == MCInit /\ [][Samp \/ Tick \/ Old \/ Conf]_<<rfvars, fresh>>
=============================================================================
