-------------------------------- MODULE Pool --------------------------------
(* Awl/ObjectPool.h seen through shared pointers in the slots 1..NS: g[s] is the
   least slot that points to the same object (0: null), `free` the number of the
   finalized objects kept for reuse. `res` counts what the operation did to objects:
   created, finalized, destroyed; then the groups and the number of living objects. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NS, Global
VARIABLES g, free, res
vars == <<g, free, res>>
View == <<g, free>>

S == 1..NS
B(b) == IF b THEN 1 ELSE 0
Min2(X) == CHOOSE x \in X : \A y \in X : x <= y
\* groups of an assignment of object names (0: none) to the slots
Canon(f) == [s \in S |-> IF f[s] = 0 THEN 0 ELSE Min2({t \in S : f[t] = f[s]})]
Last(s) == g[s] # 0 /\ \A t \in S \ {s} : g[t] # g[s]       \* the only pointer to its object
Used(f) == Cardinality({f[s] : s \in S} \ {0})
To(f, n, c) == LET k == Canon(f) IN
    g' = k /\ free' = n /\ res' = <<c, k, Used(k) + n>>

Init == g = [s \in S |-> 0] /\ free = 0 /\ res = <<>>
Reset == g' = [s \in S |-> 0] /\ free' = 0 /\ res' = <<>>

New == NS + 1   \* the name of an object that was not in any slot
\* slot s gets an object, and then its old pointer goes away
Make(s) == LET old == B(Last(s)) IN
    To([g EXCEPT ![s] = New], (IF free = 0 THEN 0 ELSE free - 1) + old, <<B(free = 0), old, 0>>)
\* an object made by the caller enters the pool
Add(s) == LET old == B(Last(s)) IN To([g EXCEPT ![s] = New], free + old, <<1, old, 0>>)
Share(s, t) == g[t] # 0 /\ LET old == B(Last(s) /\ s # t) IN To([g EXCEPT ![s] = g[t]], free + old, <<0, old, 0>>)
ResetSlot(s) == LET old == B(Last(s)) IN To([g EXCEPT ![s] = 0], free + old, <<0, old, 0>>)
\* Finalize of the object of slot s makes an object for slot u: never the one being finalized
ResetMake(s, u) == Last(s) /\ s # u /\ g[u] = 0 /\
    To([g EXCEPT ![s] = 0, ![u] = New], (IF free = 0 THEN 0 ELSE free - 1) + 1, <<B(free = 0), 1, 0>>)
Clear == To(g, 0, <<0, 0, free>>)

Bound == free <= NS + 1
Ops == UNION {
    {<<n, s>> : n \in {"make", "add", "drop"}, s \in S},
    {<<n, s, t>> : n \in {"share", "resetmake"}, s \in S, t \in S},
    {<<"clear">>}}
Step(o) ==
    CASE o[1] = "make" -> Make(o[2])
      [] o[1] = "add" -> Add(o[2])
      [] o[1] = "drop" -> ResetSlot(o[2])
      [] o[1] = "share" -> Share(o[2], o[3])
      [] o[1] = "resetmake" -> ResetMake(o[2], o[3])
      [] o[1] = "clear" -> Clear

Inv == \A s \in S : g[s] = 0 \/ g[g[s]] = g[s]
=============================================================================
