---- MODULE AssertionsTrace ----
(* Is a history recorded from the code a behaviour of Assertions? *)
EXTENDS Assertions, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.o[1] = "reset" THEN Reset
            ELSE Step(e.o) /\ (ToJson(res') = e.r \/ (PrintT(<<"REJECT", l, ToJson(res')>>) /\ FALSE))
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
====
