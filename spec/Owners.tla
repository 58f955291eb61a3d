------------------------------- MODULE Owners -------------------------------
(* C42. Scope guards (Kind = 1) or unique pointers (Kind = 2) in the slots 1..NS. s[i] is -1 (there is *)
(* none), 0 (it owns nothing) or the number of the function or of the object it owns, out are objects *)
(* that were released from their pointers. Numbers are used again once they are free.                *)
(* res: what happened, the numbers of the functions that ran (10 + n: the initialiser of n) or of the *)
(* objects that were destroyed, in their order, and how many functions or objects there are.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kind, NS, N, Assign
VARIABLES s, out, res
vars == <<s, out, res>>
View == <<s, out>>
S == 1..NS
Init == s = [i \in S |-> -1] /\ out = {} /\ res = <<>>
Reset == s' = [i \in S |-> -1] /\ out' = {} /\ res' = <<>>
Used(x, o) == {x[i] : i \in {j \in S : x[j] > 0}} \cup o
To(x, o, what, ran) == s' = x /\ out' = o /\ res' = <<what, ran, IF Kind = 2 THEN Cardinality(Used(x, o)) ELSE 0>>
Free == {n \in 1..N : n \notin Used(s, out)}
Least == CHOOSE n \in Free : \A m \in Free : n <= m
Ended(n) == IF n > 0 THEN <<n>> ELSE <<>>
\* init: 0 none, 1 an initialiser, 2 an initialiser that throws
Guard(i, engaged, init) ==
    /\ Kind = 1 /\ s[i] = -1 /\ Free # {}
    /\ LET n == Least
           ran == IF init > 0 /\ engaged = 1 THEN <<10 + n>> ELSE <<>>
       IN  IF init = 2 /\ engaged = 1 THEN To(s, out, "thrown", ran)
           ELSE To([s EXCEPT ![i] = IF engaged = 1 THEN n ELSE 0], out, "ok", ran)
Fake(i) == Kind = 1 /\ Assign = 1 /\ s[i] = -1 /\ To([s EXCEPT ![i] = 0], out, "ok", <<>>)
Pointer(i, null) == /\ Kind = 2 /\ s[i] = -1
                    /\ IF null = 1 THEN To([s EXCEPT ![i] = 0], out, "ok", <<>>)
                       ELSE Free # {} /\ To([s EXCEPT ![i] = Least], out, "ok", <<>>)
Move(i, j) == s[i] = -1 /\ i # j /\ s[j] # -1 /\ To([s EXCEPT ![i] = s[j], ![j] = 0], out, "ok", <<>>)
Let(i, j) == /\ Assign = 1 /\ s[i] # -1 /\ s[j] # -1
             /\ IF i = j THEN To(s, out, "ok", <<>>)
                ELSE To([s EXCEPT ![i] = s[j], ![j] = 0], out, "ok", Ended(s[i]))
Release(i) == /\ s[i] # -1
              /\ To([s EXCEPT ![i] = 0], IF Kind = 2 /\ s[i] > 0 THEN out \cup {s[i]} ELSE out, "ok", <<>>)
Drop(i) == s[i] # -1 /\ To([s EXCEPT ![i] = -1], out, "ok", Ended(s[i]))
\* a unique pointer gets a new object, nothing or an object that was released
Renew(i, n) == /\ Kind = 2 /\ s[i] # -1
               /\ IF n = 0 THEN To([s EXCEPT ![i] = 0], out, "ok", Ended(s[i]))
                  ELSE IF n \in out THEN To([s EXCEPT ![i] = n], out \ {n}, "ok", Ended(s[i]))
                  ELSE Free # {} /\ n = Least /\ To([s EXCEPT ![i] = n], out, "ok", Ended(s[i]))
Delete(n) == n \in out /\ To(s, out \ {n}, "ok", <<n>>)
Look(i) == Kind = 2 /\ s[i] # -1 /\ To(s, out, IF s[i] = 0 THEN "null" ELSE "object", Ended(s[i]))
Same(i, j) == Kind = 2 /\ s[i] # -1 /\ s[j] # -1 /\ To(s, out, IF s[i] = s[j] THEN "equal" ELSE "different", <<>>)
Ops == UNION {
    {<<"guard", i, e, n>> : i \in S, e \in 0..1, n \in 0..2},
    {<<n, i>> : n \in {"fake", "release", "drop", "look"}, i \in S},
    {<<"pointer", i, n>> : i \in S, n \in 0..1},
    {<<n, i, j>> : n \in {"move", "let", "same"}, i \in S, j \in S},
    {<<"renew", i, n>> : i \in S, n \in 0..N},
    {<<"delete", n>> : n \in 1..N}}
Step(o) ==
    CASE o[1] = "guard" -> Guard(o[2], o[3], o[4])
      [] o[1] = "fake" -> Fake(o[2])
      [] o[1] = "pointer" -> Pointer(o[2], o[3])
      [] o[1] = "move" -> Move(o[2], o[3])
      [] o[1] = "let" -> Let(o[2], o[3])
      [] o[1] = "release" -> Release(o[2])
      [] o[1] = "drop" -> Drop(o[2])
      [] o[1] = "renew" -> Renew(o[2], o[3])
      [] o[1] = "delete" -> Delete(o[2])
      [] o[1] = "look" -> Look(o[2])
      [] o[1] = "same" -> Same(o[2], o[3])
\* Every function and object has at most one owner
Inv == /\ \A i, j \in S : i # j /\ s[i] > 0 => s[i] # s[j]
       /\ \A i \in S : s[i] \notin out
=============================================================================
