----------------------------- MODULE Aggregator -----------------------------
(* C40. Aggregators of A arguments in the slots 1..NS. g[s] is <<values, cancelled, calls>>: 0 is a   *)
(* value that was not set. Setting a value tells what the function does if it is called: 0 returns, 1 *)
(* throws, 2 cancels the aggregator, 3 sets the argument j once more (the nested call returns). With  *)
(* Once = 1 an argument can only be moved, so nothing is set after a call.                            *)
(* res: what happened and the arguments of the calls of the function in their order.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NS, A, V, Once
VARIABLES g, res
vars == <<g, res>>
View == g
S == 1..NS
New == <<[i \in 1..A |-> 0], 0, 0>>
None == <<>>
Init == g = [s \in S |-> IF s = 1 THEN New ELSE None] /\ res = <<>>
Reset == g' = [s \in S |-> IF s = 1 THEN New ELSE None] /\ res' = <<>>
To(h, what, calls) == g' = h /\ res' = <<what, calls>>
All(x) == \A i \in 1..A : x[i] # 0
Set(s, i, v, act, j) ==
    LET x == [g[s][1] EXCEPT ![i] = v]
        called == All(x) /\ g[s][2] = 0
        y == IF called /\ act = 3 THEN [x EXCEPT ![j] = 3 - @] ELSE x
        calls == IF ~called THEN <<>> ELSE IF act = 3 THEN <<x, y>> ELSE <<x>>
    IN  /\ g[s] # None
        /\ act = 3 => (V = 2 /\ Once = 0)
        /\ (act # 3) => j = 1
        /\ Once = 1 => g[s][3] = 0
        /\ To([g EXCEPT ![s] = <<y, IF called /\ act = 2 THEN 1 ELSE @[2], IF called /\ Once = 1 THEN 1 ELSE 0>>],
              IF called /\ act = 1 THEN "thrown" ELSE "ok", calls)
Cancel(s) == g[s] # None /\ To([g EXCEPT ![s][2] = 1], "ok", <<>>)
Look(s) == g[s] # None /\ To(g, IF All(g[s][1]) THEN "all" ELSE "not all", <<>>)
Make(s) == g[s] = None /\ To([g EXCEPT ![s] = New], "ok", <<>>)
Copy(s, t) == Once = 0 /\ g[s] = None /\ g[t] # None /\ To([g EXCEPT ![s] = g[t]], "ok", <<>>)
Drop(s) == g[s] # None /\ To([g EXCEPT ![s] = None], "ok", <<>>)
Ops == UNION {
    {<<"set", s, i, v, a, j>> : s \in S, i \in 1..A, v \in 1..V, a \in 0..3, j \in 1..A},
    {<<n, s>> : n \in {"cancel", "look", "make", "drop"}, s \in S},
    {<<"copy", s, t>> : s \in S, t \in S}}
Step(o) ==
    CASE o[1] = "set" -> Set(o[2], o[3], o[4], o[5], o[6])
      [] o[1] = "cancel" -> Cancel(o[2])
      [] o[1] = "look" -> Look(o[2])
      [] o[1] = "make" -> Make(o[2])
      [] o[1] = "copy" -> Copy(o[2], o[3])
      [] o[1] = "drop" -> Drop(o[2])
\* The function gets complete sets of values only
Inv == Len(res) = 2 => \A k \in 1..Len(res[2]) : All(res[2][k])
=============================================================================
