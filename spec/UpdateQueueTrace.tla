--------------------------- MODULE UpdateQueueTrace ---------------------------
EXTENDS UpdateQueue, Hist
VARIABLE l
TInit == l = 1 /\ Init
TNext == \/ /\ l <= Len(Trace) /\ l' = l + 1
            /\ IF Trace[l].o[1] = "reset" THEN Reset ELSE Step(Trace[l].o)
            /\ Explained(l)
         \/ l' = l /\ l <= Len(Trace) /\ Hidden
TSpec == TInit /\ [][TNext]_<<l, vars>>
=============================================================================
