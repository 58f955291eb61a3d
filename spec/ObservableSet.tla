---------------------------- MODULE ObservableSet ----------------------------
(* Awl/ObservableSet.h: observable sets 1..NS of keys, subscribers 1..NB, each
   subscribed to at most one set. `res` contains every notification in the order
   of delivery: <<subscriber, kind, key, size of the set at that moment>>, kind
   1 added (the element is in the set), 2 removing (it still is), 3 clearing. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS NS, NK, NB
VARIABLES s, subs, res
vars == <<s, subs, res>>
View == <<s, subs>>

I == 1..NS
K == 1..NK
B == 1..NB
Bit(b) == IF b THEN 1 ELSE 0
Elems(q) == {q[i] : i \in 1..Len(q)}
Seq1(X) == SetToSortSeq(X, <)
All == UNION {Elems(subs[i]) : i \in I}

\* one notification to every subscriber of a set
Tell(q, kind, k, n) == [i \in 1..Len(q) |-> <<q[i], kind, k, n>>]
Clearing(i) == IF s[i] = {} THEN <<>> ELSE Tell(subs[i], 3, 0, 0)
Obs(r, n, x, y) == <<r, n, [i \in I |-> Seq1(x[i])], [b \in B |-> Bit(\E i \in I : b \in Elems(y[i]))]>>
To(x, y, r, n) == s' = x /\ subs' = y /\ res' = Obs(r, n, x, y)

Init == s = [i \in I |-> {}] /\ subs = [i \in I |-> <<>>] /\ res = <<>>
Reset == s' = [i \in I |-> {}] /\ subs' = [i \in I |-> <<>>] /\ res' = <<>>

Insert(i, k) ==
    LET new == k \notin s[i] IN
    To([s EXCEPT ![i] = @ \cup {k}], subs, <<Bit(new)>>, IF new THEN Tell(subs[i], 1, k, Cardinality(s[i]) + 1) ELSE <<>>)
Erase(i, k) ==
    LET old == k \in s[i] IN
    To([s EXCEPT ![i] = @ \ {k}], subs, <<Bit(old)>>, IF old THEN Tell(subs[i], 2, k, Cardinality(s[i])) ELSE <<>>)
EraseIt(i, k) == k \in s[i] /\ To([s EXCEPT ![i] = @ \ {k}], subs, <<>>, Tell(subs[i], 2, k, Cardinality(s[i])))
Clear(i) == To([s EXCEPT ![i] = {}], subs, <<>>, Clearing(i))
\* the set is destroyed and a new one with the given keys takes its place
New(i, X) == To([s EXCEPT ![i] = X], [subs EXCEPT ![i] = <<>>], <<>>, Clearing(i))
Subscribe(i, b) == b \notin All /\ To(s, [subs EXCEPT ![i] = Append(@, b)], <<>>, <<>>)
Unsubscribe(i, b) == b \in Elems(subs[i]) /\ To(s, [subs EXCEPT ![i] = SelectSeq(@, LAMBDA x : x # b)], <<>>, <<>>)
\* content and subscribers move, the former content of i is cleared
Move(i, j) == i # j /\ To([s EXCEPT ![i] = s[j], ![j] = {}], [subs EXCEPT ![i] = subs[j], ![j] = <<>>], <<>>, Clearing(i))
\* only the content moves
Migrate(i, j) == i # j /\ s[j] # {} /\
    To([s EXCEPT ![i] = s[j], ![j] = {}], subs, <<>>,
       Clearing(i) \o Clearing(j) \o FlattenSeq([n \in 1..Cardinality(s[j]) |-> Tell(subs[i], 1, Seq1(s[j])[n], Cardinality(s[j]))]))
Equal(i, j) == UNCHANGED <<s, subs>> /\ res' = <<Bit(s[i] = s[j]), Bit(s[i] # s[j])>>
Query(i, k) == UNCHANGED <<s, subs>> /\
    res' = <<Bit(k \in s[i]), IF k \in s[i] THEN Cardinality({x \in s[i] : x < k}) ELSE -1, Cardinality(s[i]), Bit(s[i] = {})>>

Ops == UNION {
    {<<n, i, k>> : n \in {"insert", "insertm", "emplace", "erase", "eraseit", "query"}, i \in I, k \in K},
    {<<n, i>> : n \in {"clear", "new"}, i \in I},
    {<<"build", i, k>> : i \in I, k \in K},
    {<<n, i, b>> : n \in {"sub", "unsub"}, i \in I, b \in B},
    {<<n, i, j>> : n \in {"movenew", "massign", "migrate", "equal"}, i \in I, j \in I}}

Step(o) ==
    CASE o[1] \in {"insert", "insertm", "emplace"} -> Insert(o[2], o[3])
      [] o[1] = "erase" -> Erase(o[2], o[3])
      [] o[1] = "eraseit" -> EraseIt(o[2], o[3])
      [] o[1] = "query" -> Query(o[2], o[3])
      [] o[1] = "clear" -> Clear(o[2])
      [] o[1] = "new" -> New(o[2], {})
      [] o[1] = "build" -> New(o[2], {o[3], NK})
      [] o[1] = "sub" -> Subscribe(o[2], o[3])
      [] o[1] = "unsub" -> Unsubscribe(o[2], o[3])
      [] o[1] \in {"movenew", "massign"} -> Move(o[2], o[3])
      [] o[1] = "migrate" -> Migrate(o[2], o[3])
      [] o[1] = "equal" -> Equal(o[2], o[3])

Inv == \A i, j \in I : i # j => Elems(subs[i]) \cap Elems(subs[j]) = {}
\* the notifications alone determine how the contents change
=============================================================================
