------------------------------- MODULE Mirror -------------------------------
(* Awl/MirrorSet.h: nodes 1..NS are observable sets, the nodes after them mirrors.
   src[m] is the node the mirror m reflects, 0 if none. Mirrors reflect sets or
   other mirrors. The observation after every call: the content of every node and
   whether every node is iterated in the order of its own comparer. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS NS, NM, NK
VARIABLES c, src, res
vars == <<c, src, res>>
View == <<c, src>>

S == 1..NS
M == (NS + 1)..(NS + NM)
N == S \cup M
K == 1..NK
Bit(b) == IF b THEN 1 ELSE 0
Seq1(X) == SetToSortSeq(X, <)

RECURSIVE Root(_, _)
Root(f, n) == IF n \in S \/ f[n] = 0 THEN n ELSE Root(f, f[n])
RECURSIVE Below(_, _, _)      \* n is m or reflects it, directly or through others
Below(f, n, m) == n = m \/ (n \in M /\ f[n] # 0 /\ Below(f, f[n], m))
\* every mirror that reflects something has the content of the end of its chain
Sync(x, f) == [n \in N |-> x[Root(f, n)]]
Obs(x, f) == <<[n \in N |-> Seq1(x[n])], TRUE>>
To(x, f) == LET y == Sync(x, f) IN c' = y /\ src' = f /\ res' = Obs(y, f)

\* node n ceases to exist (destroyed or overwritten): its reflections are emptied and orphaned
Kill(x, f, n) == LET y == Sync([x EXCEPT ![n] = {}], f) IN [y EXCEPT ![n] = {}]
Orphan(f, n) == [m \in M |-> IF f[m] = n THEN 0 ELSE f[m]]
\* a mirror that dies is not affected by its source any more
Emptied(n) == LET f == IF n \in M THEN [src EXCEPT ![n] = 0] ELSE src IN Kill(c, f, n)
Orphaned(n) == Orphan(IF n \in M THEN [src EXCEPT ![n] = 0] ELSE src, n)

Init == c = [n \in N |-> {}] /\ src = [m \in M |-> 0] /\ res = <<>>
Reset == c' = [n \in N |-> {}] /\ src' = [m \in M |-> 0] /\ res' = <<>>

Insert(i, k) == To([c EXCEPT ![i] = @ \cup {k}], src)
Erase(i, k) == To([c EXCEPT ![i] = @ \ {k}], src)
Clear(i) == To([c EXCEPT ![i] = {}], src)
\* an empty mirror without a source begins to reflect n (no cycles)
Reflect(m, n) == src[m] = 0 /\ c[m] = {} /\ ~Below(src, n, m) /\ To(c, [src EXCEPT ![m] = n])
Unsubscribe(m) == src[m] # 0 /\ To(c, [src EXCEPT ![m] = 0])
Destroy(n) == To(Emptied(n), Orphaned(n))
\* a becomes b (constructed in its place or assigned): content, reflections and, for mirrors, the source
Move(a, b) ==
    /\ a # b /\ (a \in S) = (b \in S)
    /\ b \in M => ~Below(src, b, a)
    /\ LET x == Emptied(a)
           f == Orphaned(a)
           g == [m \in M |-> IF m = a THEN f[b] ELSE IF m = b THEN 0 ELSE IF f[m] = b THEN a ELSE f[m]]
       IN To([x EXCEPT ![a] = x[b], ![b] = {}], g)
Migrate(i, j) == i # j /\ c[j] # {} /\ To([c EXCEPT ![i] = c[j], ![j] = {}], src)
Equal(a, b) == UNCHANGED <<c, src>> /\ res' = <<Bit(c[a] = c[b])>>
Query(n, k) == UNCHANGED <<c, src>> /\ res' = <<Bit(k \in c[n]), Cardinality(c[n])>>

Ops == UNION {
    {<<n, i, k>> : n \in {"insert", "erase"}, i \in S, k \in K},
    {<<"clear", i>> : i \in S},
    {<<"destroy", i>> : i \in N},
    {<<"reflect", m, n>> : m \in M, n \in N},
    {<<"unsub", m>> : m \in M},
    {<<n, i, j>> : n \in {"movenew", "massign"}, i \in N, j \in N},
    {<<"migrate", i, j>> : i \in S, j \in S},
    {<<"query", i, k>> : i \in M, k \in K}}

Step(o) ==
    CASE o[1] = "insert" -> Insert(o[2], o[3])
      [] o[1] = "erase" -> Erase(o[2], o[3])
      [] o[1] = "clear" -> Clear(o[2])
      [] o[1] = "destroy" -> Destroy(o[2])
      [] o[1] = "reflect" -> Reflect(o[2], o[3])
      [] o[1] = "unsub" -> Unsubscribe(o[2])
      [] o[1] \in {"movenew", "massign"} -> Move(o[2], o[3])
      [] o[1] = "migrate" -> Migrate(o[2], o[3])
      [] o[1] = "query" -> Query(o[2], o[3])

\* a mirror equals its source
Inv == \A m \in M : src[m] # 0 => c[m] = c[src[m]]
=============================================================================
