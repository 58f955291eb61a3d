--------------------------------- MODULE Hist ---------------------------------
(* Histories of concurrent executions: a history is accepted when some way of inserting the internal *)
(* steps of the specification explains all its events. TLCGet(1) is the last explained event.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, 0)
Explained(l) == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == PrintT(<<"DIAM", TLCGet(1) + 1>>) /\ TLCGet(1) = Len(Trace)
=============================================================================
