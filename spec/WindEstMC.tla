------------------------------ MODULE WindEstMC ------------------------------
EXTENDS WindEst
CONSTANT MaxT
VARIABLE now
MCInit == Init /\ now = 5
Step == \/ Update(now)
        \/ \E k \in {"tas", "beta"}, f, u, r, i, s \in BOOLEAN : Fuse(k, now, f, (u \/ k = "tas"), r, i, s)
MCNext == \/ Step /\ UNCHANGED now
          \/ \E d \in 1..2 : now + d <= MaxT /\ now' = now + d /\ UNCHANGED wvars
MCSpec == MCInit /\ [][MCNext]_<<wvars, now>>
=============================================================================
