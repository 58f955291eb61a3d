---- MODULE TimeQueueTrace ----
(* Is a history recorded from the code a behaviour of TimeQueue? *)
EXTENDS TimeQueue, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ IF Trace[l].o[1] = "reset" THEN Reset ELSE Step(Trace[l].o)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
