---- MODULE ListsMC ----
(* Exhaustive exploration of Lists; every transition is printed for the replay into the code. *)
EXTENDS Lists, Json
VARIABLE act
MCInit == Init /\ act = <<>>
MCNext == \E o \in Ops : Step(o) /\ act' = o
Emit == PrintT(ToJson(<<"EDGE", View, act', ToJson(res'), View'>>))
====
