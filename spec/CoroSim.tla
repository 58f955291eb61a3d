---- MODULE CoroSim ----
(* Random behaviours of Coro (tlc -simulate), printed for the replay into the code. *)
EXTENDS Coro, Json
CONSTANT Depth
VARIABLE hist
SInit == Init /\ hist = <<>>
SNext == \E o \in Ops : Step(o) /\ hist' = Append(hist, <<ToJson(o), ToJson(res')>>)
Emit == Len(hist) # Depth \/ PrintT(ToJson(<<"SIM", hist>>))
====
