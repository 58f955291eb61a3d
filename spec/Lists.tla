------------------------------- MODULE Lists -------------------------------
(* Intrusive lists (Awl/QuickList.h, Awl/SingleList.h): quick_lists 1..NA through
   the elements' link A, NA+1..NA+NB through link B, single_lists after them.
   An element is in at most one list per link. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS NE, NA, NB, NS

VARIABLES q, res
vars == <<q, res>>
View == q

E == 1..NE
QL == 1..(NA + NB)
SL == (NA + NB + 1)..(NA + NB + NS)
LL == QL \cup SL
Link(l) == IF l <= NA THEN 1 ELSE IF l <= NA + NB THEN 2 ELSE 3
Elems(s) == {s[i] : i \in 1..Len(s)}
In(x, e, k) == \E l \in LL : Link(l) = k /\ e \in Elems(x[l])
Pos(s, e) == CHOOSE i \in 1..Len(s) : s[i] = e
B(b) == IF b THEN 1 ELSE 0

\* what is visible: both iterations and sizes of every list, the inclusion flags of every element
Obs(r, x) == <<r, [l \in LL |-> <<x[l], Reverse(x[l]), <<Len(x[l]), B(Len(x[l]) = 0), B(Len(x[l]) = 1), B(Len(x[l]) <= 1)>> >>],
               LET m == [k \in 1..3 |-> UNION {Elems(x[l]) : l \in {l \in LL : Link(l) = k}}] IN
               [e \in E |-> <<B(e \in m[1]), B(e \in m[2]), B(e \in m[3])>>]>>
To(x, r) == q' = x /\ res' = Obs(r, x)

Init == q = [l \in LL |-> <<>>] /\ res = <<>>
Reset == q' = [l \in LL |-> <<>>] /\ res' = <<>>

Free(l, e) == ~In(q, e, Link(l))
PushFront(l, e) == Free(l, e) /\ To([q EXCEPT ![l] = <<e>> \o @], <<>>)
PushBack(l, e) == l \in QL /\ Free(l, e) /\ To([q EXCEPT ![l] = Append(@, e)], <<>>)
\* at the place of an iterator: after its element (reverse iterator: before it)
InsertAfter(l, at, e) == l \in QL /\ Free(l, e) /\ at \in Elems(q[l]) /\ To([q EXCEPT ![l] = InsertAt(@, Pos(@, at) + 1, e)], <<>>)
InsertBefore(l, at, e) == l \in QL /\ Free(l, e) /\ at \in Elems(q[l]) /\ To([q EXCEPT ![l] = InsertAt(@, Pos(@, at), e)], <<>>)
PopFront(l) == q[l] # <<>> /\ To([q EXCEPT ![l] = Tail(@)], <<Head(q[l])>>)
PopBack(l) == l \in QL /\ q[l] # <<>> /\ To([q EXCEPT ![l] = Front(@)], <<Last(q[l])>>)
Peek(l) == q[l] # <<>> /\ UNCHANGED q /\ res' = <<Head(q[l]), IF l \in QL THEN Last(q[l]) ELSE 0>>
\* by element, by iterator, by reverse iterator, through the link itself
Erase(l, e) == l \in QL /\ e \in Elems(q[l]) /\ To([q EXCEPT ![l] = RemoveAt(@, Pos(@, e))], <<>>)
\* removes e from whatever list of link k it is in, if any (safe_exclude)
SafeExclude(k, e) == To([l \in LL |-> IF Link(l) = k THEN SelectSeq(q[l], LAMBDA x : x # e) ELSE q[l]], <<>>)
SpliceFront(l, m) == l \in QL /\ m \in QL /\ l # m /\ Link(l) = Link(m) /\ To([q EXCEPT ![l] = q[m] \o q[l], ![m] = <<>>], <<>>)
SpliceBack(l, m) == l \in QL /\ m \in QL /\ l # m /\ Link(l) = Link(m) /\ To([q EXCEPT ![l] = q[l] \o q[m], ![m] = <<>>], <<>>)
\* a list is replaced by a new one constructed by move, or assigned, only while it is empty
Move(l, m) == l \in QL /\ m \in QL /\ l # m /\ Link(l) = Link(m) /\ q[l] = <<>> /\ To([q EXCEPT ![l] = q[m], ![m] = <<>>], <<>>)
\* a cleared list is empty and usable; its elements (which keep stale links) are replaced by new ones,
\* so none of them may be in another list
Clear(l) == (\A e \in Elems(q[l]) : \A m \in LL \ {l} : e \notin Elems(q[m])) /\ To([q EXCEPT ![l] = <<>>], <<>>)

Ops == UNION {
    {<<n, l, e>> : n \in {"pushfront"}, l \in LL, e \in E},
    {<<n, l, e>> : n \in {"pushback", "erase", "eraseit", "eraserit"}, l \in QL, e \in E},
    {<<n, l, a, e>> : n \in {"insafter", "insbefore"}, l \in QL, a \in E, e \in E},
    {<<n, l>> : n \in {"popfront", "peek", "clear"}, l \in LL},
    {<<n, l>> : n \in {"popback"}, l \in QL},
    {<<"exclude", k, e>> : k \in {1, 2}, e \in E},
    {<<n, l, m>> : n \in {"splicefront", "spliceback", "movenew", "massign"}, l \in QL, m \in QL}}

Step(o) ==
    CASE o[1] = "pushfront" -> PushFront(o[2], o[3])
      [] o[1] = "pushback" -> PushBack(o[2], o[3])
      [] o[1] = "insafter" -> InsertAfter(o[2], o[3], o[4])
      [] o[1] = "insbefore" -> InsertBefore(o[2], o[3], o[4])
      [] o[1] = "popfront" -> PopFront(o[2])
      [] o[1] = "popback" -> PopBack(o[2])
      [] o[1] = "peek" -> Peek(o[2])
      [] o[1] \in {"erase", "eraseit", "eraserit"} -> Erase(o[2], o[3])
      [] o[1] = "exclude" -> SafeExclude(o[2], o[3])
      [] o[1] = "splicefront" -> SpliceFront(o[2], o[3])
      [] o[1] = "spliceback" -> SpliceBack(o[2], o[3])
      [] o[1] \in {"movenew", "massign"} -> Move(o[2], o[3])
      [] o[1] = "clear" -> Clear(o[2])

\* an element is at most once in the lists of a link
Inv == \A l \in LL : /\ Cardinality(Elems(q[l])) = Len(q[l])
                      /\ \A m \in LL : l < m /\ Link(l) = Link(m) => Elems(q[l]) \cap Elems(q[m]) = {}
=============================================================================
