----------------------------- MODULE StopHandles ------------------------------
(* C21. Copies, moves, swaps and ends of stop sources and tokens by one thread: which stop state     *)
(* every handle has, and what it answers. A state lives as long as a handle of it.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NS, NT
VARIABLES s, t, req, res
vars == <<s, t, req, res>>
View == <<s, t, req>>
S == 1..NS
TT == 1..NT
B(b) == IF b THEN 1 ELSE 0
Free(a, b) == CHOOSE k \in 1..NS + NT + 1 : /\ k \notin {a[i] : i \in S} \cup {b[i] : i \in TT}
                                           /\ \A m \in 1..k - 1 : m \in {a[i] : i \in S} \cup {b[i] : i \in TT}
Live(a, b) == ({a[i] : i \in S} \cup {b[i] : i \in TT}) \ {0}
Requested(k, q) == k # 0 /\ k \in q
Possible(k, a, q) == k # 0 /\ (k \in q \/ \E i \in S : a[i] = k)
\* of sources: requested, possible (a source that has a state); of tokens: requested, possible; equal ones
Obs(v, a, b, q) == <<v, [i \in S |-> <<B(Requested(a[i], q)), B(a[i] # 0)>>], [i \in TT |-> <<B(Requested(b[i], q)), B(Possible(b[i], a, q))>>],
                     [i \in S |-> [j \in S |-> B(a[i] = a[j])]], [i \in TT |-> [j \in TT |-> B(b[i] = b[j])]], Cardinality(Live(a, b))>>
To(v, a, b, q) == s' = a /\ t' = b /\ req' = (q \cap Live(a, b)) /\ res' = Obs(v, a, b, q \cap Live(a, b))

Init == s = [i \in S |-> 0] /\ t = [i \in TT |-> 0] /\ req = {} /\ res = <<>>
Reset == s' = [i \in S |-> 0] /\ t' = [i \in TT |-> 0] /\ req' = {} /\ res' = <<>>

New(i) == To(0, [s EXCEPT ![i] = Free(s, t)], t, req)
NoState(i) == To(0, [s EXCEPT ![i] = 0], t, req)
Copy(i, j) == To(0, [s EXCEPT ![i] = s[j]], t, req)
Move(i, j) == To(0, IF i = j THEN s ELSE [s EXCEPT ![i] = s[j], ![j] = 0], t, req)
Swap(i, j) == To(0, [s EXCEPT ![i] = s[j], ![j] = s[i]], t, req)
Get(i, j) == To(0, s, [t EXCEPT ![i] = s[j]], req)
TNone(i) == To(0, s, [t EXCEPT ![i] = 0], req)
TCopy(i, j) == To(0, s, [t EXCEPT ![i] = t[j]], req)
TMove(i, j) == To(0, s, IF i = j THEN t ELSE [t EXCEPT ![i] = t[j], ![j] = 0], req)
TSwap(i, j) == To(0, s, [t EXCEPT ![i] = t[j], ![j] = t[i]], req)
Request(i) == To(B(s[i] # 0 /\ s[i] \notin req), s, t, req \cup ({s[i]} \ {0}))

\* the ways to copy and to move: assignment and construction of a handle that takes the place
Ops == UNION {
    {<<n, i>> : n \in {"new", "nostate", "request"}, i \in S},
    {<<n, i, j>> : n \in {"copy", "move", "swap"}, i \in S, j \in S},
    {<<n, i, j>> : n \in {"copynew", "movenew"}, i \in S, j \in S},
    {<<"get", i, j>> : i \in TT, j \in S},
    {<<"tnone", i>> : i \in TT},
    {<<n, i, j>> : n \in {"tcopy", "tmove", "tswap", "tcopynew", "tmovenew"}, i \in TT, j \in TT}}
Step(o) == LET k == o[1] IN
    CASE k = "new" -> New(o[2])
      [] k = "nostate" -> NoState(o[2])
      [] k = "request" -> Request(o[2])
      [] k \in {"copy", "copynew"} -> Copy(o[2], o[3])
      [] k = "move" -> Move(o[2], o[3])
      [] k = "movenew" -> o[2] # o[3] /\ Move(o[2], o[3])
      [] k = "swap" -> Swap(o[2], o[3])
      [] k = "get" -> Get(o[2], o[3])
      [] k = "tnone" -> TNone(o[2])
      [] k \in {"tcopy", "tcopynew"} -> TCopy(o[2], o[3])
      [] k = "tmove" -> TMove(o[2], o[3])
      [] k = "tmovenew" -> o[2] # o[3] /\ TMove(o[2], o[3])
      [] k = "tswap" -> TSwap(o[2], o[3])
      [] OTHER -> FALSE
Inv == req \subseteq Live(s, t)
=============================================================================
