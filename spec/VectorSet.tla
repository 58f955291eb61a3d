----------------------------- MODULE VectorSet -----------------------------
(* Sorted associative containers with positions (Awl/VectorSet.h): NS sets of
   elements <<key, payload>>, and NL held iterators. A step is one public call;
   `res` is what the caller observes: the result of the call, then the content
   of every set as seen by forward iteration (a digest of it when it is long)
   and whether all the other views of the container (reverse iteration, size,
   element access, position of keys and iterators, front and back) agree with
   that iteration and every held iterator still points at its element. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS NK, NP, NS, NL, ND, Big   \* ND = 2: sets can have the reverse comparer
Keys == 1..NK
Pay == 1..NP

VARIABLES s,     \* s[i]: the payload of every key of set i, 0 where absent
          it,    \* it[l]: <<set, key>> of a held iterator, or <<0, 0>>
          d,     \* d[i]: the direction of the comparer of set i, 1 or -1
          res

vars == <<s, it, d, res>>
View == <<s, it, d>>

Empty == [k \in Keys |-> 0]
Dom(m) == {k \in Keys : m[k] # 0}
Min2(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(S) == CHOOSE x \in S : \A y \in S : x >= y
First(S, e) == IF e = 1 THEN Min2(S) ELSE Max2(S)
Last1(S, e) == First(S, 0 - e)
Less(x, y, e) == x * e < y * e
Sorted(S, e) == IF e = 1 THEN SetToSortSeq(S, <) ELSE SetToSortSeq(S, >)
Elems(m, e) == LET q == Sorted(Dom(m), e) IN [i \in 1..Len(q) |-> <<q[i], m[q[i]]>>]
Digest(m, e) == LET b == Dom(m) n == Cardinality(b) IN
    IF n <= Big THEN Elems(m, e)
    ELSE << <<n, SumSet(b)>>, <<Min2(b), Max2(b)>> >>
Obs(r, t, e) == <<r, [i \in 1..NS |-> Digest(t[i], e[i])], TRUE>>

\* position of key k, 0-based
Rank(m, k, e) == Cardinality({x \in Dom(m) : Less(x, k, e)})
At(m, p, e) == Sorted(Dom(m), e)[p + 1]
Lb(m, k, e) == LET c == {x \in Dom(m) : ~Less(x, k, e)} IN IF c = {} THEN -1 ELSE First(c, e)
Ub(m, k, e) == LET c == {x \in Dom(m) : Less(k, x, e)} IN IF c = {} THEN -1 ELSE First(c, e)
Pb(m, k, e) == LET c == {x \in Dom(m) : Less(x, k, e)} IN IF c = {} THEN -1 ELSE Last1(c, e)
B(b) == IF b THEN 1 ELSE 0

Drop(i) == [l \in 1..NL |-> IF it[l][1] = i THEN <<0, 0>> ELSE it[l]]
DropKey(i, k) == [l \in 1..NL |-> IF it[l] = <<i, k>> THEN <<0, 0>> ELSE it[l]]
Redirect(i, j) == [l \in 1..NL |-> IF it[l][1] = j THEN <<i, it[l][2]>>
                                   ELSE IF it[l][1] = i THEN <<0, 0>> ELSE it[l]]

Init == d = [i \in 1..NS |-> 1] /\ s = [i \in 1..NS |-> Empty] /\ it = [l \in 1..NL |-> <<0, 0>>] /\ res = <<>>
Reset == d' = [i \in 1..NS |-> 1] /\ s' = [i \in 1..NS |-> Empty] /\ it' = [l \in 1..NL |-> <<0, 0>>] /\ res' = <<>>

\* a query: nothing changes
Query(r) == UNCHANGED <<s, it, d>> /\ res' = <<r>>
BecomesD(t, e, r) == s' = t /\ d' = e /\ res' = Obs(r, t, e)
Becomes(t, r) == BecomesD(t, d, r)

\* insert by copy, insert by move, emplace: an equal element that exists is kept
Insert(i, k, p) ==
    LET new == s[i][k] = 0
        t == IF new THEN [s EXCEPT ![i][k] = p] ELSE s IN
    UNCHANGED it /\ Becomes(t, <<B(new), k, t[i][k]>>)

EraseKey(i, k) ==
    it' = DropKey(i, k) /\ Becomes([s EXCEPT ![i][k] = 0], <<B(s[i][k] # 0)>>)
EraseIt(l) ==
    LET h == it[l] IN
    h[1] # 0 /\ it' = DropKey(h[1], h[2]) /\ Becomes([s EXCEPT ![h[1]][h[2]] = 0], <<>>)
EraseAt(i, p) ==
    p < Cardinality(Dom(s[i])) /\
    LET k == At(s[i], p, d[i]) IN it' = DropKey(i, k) /\ Becomes([s EXCEPT ![i][k] = 0], <<>>)
Clear(i) == it' = Drop(i) /\ Becomes([s EXCEPT ![i] = Empty], <<>>)

\* i := copy-constructed from j; i = j by copy assignment (also to itself)
CopyNew(i, j) == i # j /\ it' = Drop(i) /\ BecomesD([s EXCEPT ![i] = s[j]], [d EXCEPT ![i] = d[j]], <<>>)
Assign(i, j) == it' = (IF i = j THEN it ELSE Drop(i)) /\ BecomesD([s EXCEPT ![i] = s[j]], [d EXCEPT ![i] = d[j]], <<>>)
\* move construction and move assignment: the elements keep their places in memory
MoveNew(i, j) == i # j /\ it' = Redirect(i, j) /\ BecomesD([s EXCEPT ![i] = s[j], ![j] = Empty], [d EXCEPT ![i] = d[j]], <<>>)
MoveAssign(i, j) == MoveNew(i, j)
Swap(i, j) ==
    i # j /\ it' = [l \in 1..NL |-> IF it[l][1] = i THEN <<j, it[l][2]>> ELSE IF it[l][1] = j THEN <<i, it[l][2]>> ELSE it[l]]
          /\ BecomesD([s EXCEPT ![i] = s[j], ![j] = s[i]], [d EXCEPT ![i] = d[j], ![j] = d[i]], <<>>)
\* i := a new empty set with the other comparer, by construction or by move assignment
New(i, e) == it' = Drop(i) /\ BecomesD([s EXCEPT ![i] = Empty], [d EXCEPT ![i] = IF e = 2 THEN -1 ELSE 1], <<>>)
\* i := constructed from the keys a, b, c (initializer list or range, first one wins)
Build(i, a, b, c) ==
    it' = Drop(i) /\ BecomesD([s EXCEPT ![i] = [k \in Keys |-> IF k \in {a, b, c} THEN 1 ELSE 0]], [d EXCEPT ![i] = 1], <<>>)

\* held iterators
Hold(l, i, k) == s[i][k] # 0 /\ UNCHANGED <<s, d>> /\ it' = [it EXCEPT ![l] = <<i, k>>] /\ res' = Obs(<<>>, s, d)
Deref(l) == it[l][1] # 0 /\ Query(<<it[l][2], s[it[l][1]][it[l][2]], Rank(s[it[l][1]], it[l][2], d[it[l][1]])>>)
Next1(l) == it[l][1] # 0 /\ Query(<<Ub(s[it[l][1]], it[l][2], d[it[l][1]])>>)
Prev1(l) == it[l][1] # 0 /\ Query(<<Pb(s[it[l][1]], it[l][2], d[it[l][1]])>>)

Find(i, k) == Query(<<IF s[i][k] # 0 THEN k ELSE -1, B(s[i][k] # 0)>>)
Find2(i, k) == Query(<<IF s[i][k] # 0 THEN k ELSE -1, IF s[i][k] # 0 THEN Rank(s[i], k, d[i]) ELSE -1>>)
Bounds(i, k) == Query(<<Lb(s[i], k, d[i]), Ub(s[i], k, d[i])>>)
IndexOf(i, k) == Query(<<IF s[i][k] # 0 THEN Rank(s[i], k, d[i]) ELSE -1>>)
GetAt(i, p) == LET n == Cardinality(Dom(s[i])) IN Query(<<IF p < n THEN At(s[i], p, d[i]) ELSE -1, IF p < n THEN At(s[i], p, d[i]) ELSE -1>>)
\* sets are compared by the keys
Equal(i, j) == d[i] = d[j] /\ LET e == Dom(s[i]) = Dom(s[j]) IN Query(<<B(e), B(~e)>>)

Pos == 0..Cardinality(Keys)
I == 1..NS
L == 1..NL
Ops == UNION {
    {<<n, i, k, p>> : n \in {"insert", "insertm", "emplace"}, i \in I, k \in Keys, p \in Pay},
    {<<n, i, k>> : n \in {"erase", "find", "find2", "bounds", "indexof"}, i \in I, k \in Keys},
    {<<n, i, p>> : n \in {"eraseat", "at"}, i \in I, p \in Pos},
    {<<n, l>> : n \in {"eraseit", "deref", "next", "prev"}, l \in L},
    {<<n, i, j>> : n \in {"copynew", "assign", "movenew", "massign", "swap", "equal"}, i \in I, j \in I},
    {<<"hold", l, i, k>> : l \in L, i \in I, k \in Keys},
    {<<"build", i, a, b, c>> : i \in {1}, a \in Keys, b \in {Min2(Keys)}, c \in {Max2(Keys)}},
    {<<"new", i, e>> : i \in I, e \in (IF ND = 2 THEN {1, 2} ELSE {})},
    {<<"clear", i>> : i \in I}}

Step(o) ==
    CASE o[1] \in {"insert", "insertm", "emplace"} -> Insert(o[2], o[3], o[4])
      [] o[1] = "erase" -> EraseKey(o[2], o[3])
      [] o[1] = "eraseit" -> EraseIt(o[2])
      [] o[1] = "eraseat" -> EraseAt(o[2], o[3])
      [] o[1] = "clear" -> Clear(o[2])
      [] o[1] = "copynew" -> CopyNew(o[2], o[3])
      [] o[1] = "assign" -> Assign(o[2], o[3])
      [] o[1] = "movenew" -> MoveNew(o[2], o[3])
      [] o[1] = "massign" -> MoveAssign(o[2], o[3])
      [] o[1] = "swap" -> Swap(o[2], o[3])
      [] o[1] = "new" -> New(o[2], o[3])
      [] o[1] = "build" -> Build(o[2], o[3], o[4], o[5])
      [] o[1] = "hold" -> Hold(o[2], o[3], o[4])
      [] o[1] = "deref" -> Deref(o[2])
      [] o[1] = "next" -> Next1(o[2])
      [] o[1] = "prev" -> Prev1(o[2])
      [] o[1] = "find" -> Find(o[2], o[3])
      [] o[1] = "find2" -> Find2(o[2], o[3])
      [] o[1] = "bounds" -> Bounds(o[2], o[3])
      [] o[1] = "indexof" -> IndexOf(o[2], o[3])
      [] o[1] = "at" -> GetAt(o[2], o[3])
      [] o[1] = "equal" -> Equal(o[2], o[3])

Inv == /\ \A i \in I : DOMAIN s[i] = Keys /\ d[i] \in {1, -1}
       /\ \A l \in L : it[l] = <<0, 0>> \/ s[it[l][1]][it[l][2]] # 0
=============================================================================
