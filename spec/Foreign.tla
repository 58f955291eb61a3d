------------------------------- MODULE Foreign -------------------------------
(* Awl/ForeignSet.h: sources 1..NS (pk -> fk, 0: absent), foreign sets 1..NF, each
   reflecting the source on[f] (0: none; it is empty then). Kind tells the harness
   which element type it uses: 0 values, 1 shared pointers, 2 unique pointers,
   3 plain pointers, 4 values through a mirror_set.
   ev[f] are the notifications of one call in the order of delivery:
   <<1, fk, pk>> group fk appeared (with its first element pk), <<2, fk, pk>> it is
   removed (with its last element), <<3, 0, 0>> all groups are cleared,
   <<4, fk, pk>> pk added to a present group, <<5, fk, pk>> pk removed from a group
   that stays, <<6, fk, 0>> the group fk is destroyed. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS NS, NF, NP, NG, Kind
VARIABLES c, on, res
vars == <<c, on, res>>
View == <<c, on>>

S == 1..NS
F == 1..NF
P == 1..NP
G == 1..NG
Empty == [p \in P |-> 0]
Bit(b) == IF b THEN 1 ELSE 0
Seq1(X) == SetToSortSeq(X, <)

Content(x, y, f) == IF y[f] = 0 THEN Empty ELSE x[y[f]]
Fks(m) == {m[p] : p \in P} \ {0}
\* the source grouped by foreign key: <<fk, <<pk, ...>>>> in key order
Groups(m) == LET K == Seq1(Fks(m)) IN [n \in 1..Len(K) |-> <<K[n], Seq1({p \in P : m[p] = K[n]})>>]
Obs(x, y, ev) == <<ev, [f \in F |-> Groups(Content(x, y, f))], TRUE>>
Quiet == [f \in F |-> <<>>]
To(x, y, ev) == c' = x /\ on' = y /\ res' = Obs(x, y, ev)

AddEv(m, p, g) == IF g \in Fks(m) THEN <<<<4, g, p>>>> ELSE <<<<1, g, p>>>>
ClearEv(m) == LET K == Seq1(Fks(m)) IN IF K = <<>> THEN <<>> ELSE <<<<3, 0, 0>>>> \o [n \in 1..Len(K) |-> <<6, K[n], 0>>]
\* the notifications when the elements of m are added one by one in the order of their keys
RECURSIVE FillEv(_, _, _)
FillEv(m, done, p) == IF p > NP THEN <<>>
                      ELSE IF m[p] = 0 THEN FillEv(m, done, p + 1)
                      ELSE AddEv(done, p, m[p]) \o FillEv(m, [done EXCEPT ![p] = m[p]], p + 1)
On(i, ev) == [f \in F |-> IF on[f] = i THEN ev ELSE <<>>]
Off(i) == [f \in F |-> IF on[f] = i THEN 0 ELSE on[f]]

Init == c = [i \in S |-> Empty] /\ on = [f \in F |-> 0] /\ res = <<>>
Reset == c' = [i \in S |-> Empty] /\ on' = [f \in F |-> 0] /\ res' = <<>>

Insert(i, p, g) == IF c[i][p] # 0 THEN To(c, on, Quiet) ELSE To([c EXCEPT ![i][p] = g], on, On(i, AddEv(c[i], p, g)))
Erase(i, p) ==
    LET g == c[i][p] IN
    IF g = 0 THEN To(c, on, Quiet)
    ELSE To([c EXCEPT ![i][p] = 0], on,
            On(i, IF \E x \in P \ {p} : c[i][x] = g THEN <<<<5, g, p>>>> ELSE <<<<2, g, p>>, <<6, g, 0>>>>))
Clear(i) == To([c EXCEPT ![i] = Empty], on, On(i, ClearEv(c[i])))
Destroy(i) == To([c EXCEPT ![i] = Empty], Off(i), On(i, ClearEv(c[i])))
Move(i, j) == i # j /\ To([c EXCEPT ![i] = c[j], ![j] = Empty], [f \in F |-> IF on[f] = i THEN 0 ELSE IF on[f] = j THEN i ELSE on[f]],
                          On(i, ClearEv(c[i])))
Migrate(i, j) == i # j /\ c[j] # Empty /\
    To([c EXCEPT ![i] = c[j], ![j] = Empty], on,
       [f \in F |-> IF on[f] = i THEN ClearEv(c[i]) \o FillEv(c[j], Empty, 1) ELSE IF on[f] = j THEN ClearEv(c[j]) ELSE <<>>])
\* a new foreign set on source i takes the place of f; it is observed from then on
Build(f, i) == To(c, [on EXCEPT ![f] = i], [Quiet EXCEPT ![f] = ClearEv(Content(c, on, f))])
\* an unused foreign set is subscribed to an empty source
Subscribe(f, i) == on[f] = 0 /\ c[i] = Empty /\ To(c, [on EXCEPT ![f] = i], Quiet)
DestroyF(f) == To(c, [on EXCEPT ![f] = 0], [Quiet EXCEPT ![f] = ClearEv(Content(c, on, f))])
MoveF(f) == To(c, on, Quiet)
Query(f, g) == UNCHANGED <<c, on>> /\
    LET m == Content(c, on, f) IN
    res' = <<Bit(g \in Fks(m)), Cardinality({p \in P : m[p] = g}), Cardinality({x \in Fks(m) : x < g}), Cardinality(Fks(m)), Bit(Fks(m) = {})>>

Ops == UNION {
    {<<"insert", i, p, g>> : i \in S, p \in P, g \in G},
    {<<"erase", i, p>> : i \in S, p \in P},
    {<<n, i>> : n \in {"clear", "destroy"}, i \in S},
    {<<n, i, j>> : n \in {"movenew", "massign", "migrate"}, i \in S, j \in S},
    {<<n, f, i>> : n \in {"build", "sub"}, f \in F, i \in S},
    {<<n, f>> : n \in {"fdestroy", "fmove"}, f \in F},
    {<<"query", f, g>> : f \in F, g \in G}}

Step(o) ==
    CASE o[1] = "insert" -> Insert(o[2], o[3], o[4])
      [] o[1] = "erase" -> Erase(o[2], o[3])
      [] o[1] = "clear" -> Clear(o[2])
      [] o[1] = "destroy" -> Destroy(o[2])
      [] o[1] \in {"movenew", "massign"} -> Move(o[2], o[3])
      [] o[1] = "migrate" -> Migrate(o[2], o[3])
      [] o[1] = "build" -> Build(o[2], o[3])
      [] o[1] = "sub" -> Subscribe(o[2], o[3])
      [] o[1] = "fdestroy" -> DestroyF(o[2])
      [] o[1] = "fmove" -> MoveF(o[2])
      [] o[1] = "query" -> Query(o[2], o[3])

\* no group is empty, the groups partition the source
Inv == \A f \in F : LET g == Groups(Content(c, on, f)) IN
    /\ \A n \in 1..Len(g) : g[n][2] # <<>>
    /\ on[f] # 0 => UNION {{g[n][2][k] : k \in 1..Len(g[n][2])} : n \in 1..Len(g)} = {p \in P : c[on[f]][p] # 0}
=============================================================================
