---- MODULE AggregatorMC ----
(* Exhaustive exploration of Aggregator; every transition is printed for the replay into the code. *)
EXTENDS Aggregator, Json
VARIABLE act
MCInit == Init /\ act = <<>>
MCNext == \E o \in Ops : Step(o) /\ act' = o
Emit == PrintT(ToJson(<<"EDGE", View, act', ToJson(res'), View'>>))
====
