------------------------------- MODULE Failing -------------------------------
(* C60. Containers (K = 1: vector_set, K = 2: ring) whose elements, comparers and allocators can fail.     *)
(* c[i]: <<allocator, capacity, elements>>. Every operation is tried again and again, each time with a     *)
(* failure at the next of the points where something can fail, until it succeeds. A failed attempt leaves  *)
(* everything as it was; only a failed copy assignment can leave a part of the assigned elements, and a    *)
(* push into a full ring that failed can have dropped the element at the other end (the harness checks     *)
(* this and puts the container back). Nothing is lost: `Owned` is what must be allocated and alive.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS K, V, N, L     \* kind, values, containers, longest content (capacity of a ring)
VARIABLES c, res
vars == <<c, res>>
View == c
Fresh == <<1, 0, <<>>>>
Init == c = [i \in 1..N |-> Fresh] /\ res = <<>>
Reset == c' = [i \in 1..N |-> Fresh] /\ res' = <<>>
Set(i, x) == [c EXCEPT ![i] = x]
RECURSIVE Sum(_, _, _)
Blocks(x) == IF K = 1 THEN Len(x[3]) ELSE IF x[2] > 0 THEN 1 ELSE 0
Sum(a, i, id) == IF i = 0 THEN 0 ELSE Sum(a, i - 1, id) + (IF id = 0 THEN Len(a[i][3]) ELSE IF a[i][1] = id THEN Blocks(a[i]) ELSE 0)
\* The contents, the blocks of memory of both allocators, the elements alive
Owned(a) == <<[i \in 1..N |-> <<a[i][2], a[i][3]>>], Sum(a, N, 1), Sum(a, N, 2), Sum(a, N, 0)>>
To(a, r) == c' = a /\ res' = <<r, Owned(a)>>
Id(i) == c[i][1]
Cap(i) == c[i][2]
E(i) == c[i][3]
Has(i, v) == \E k \in 1..Len(E(i)) : E(i)[k] = v
With(s, v) == IF \E k \in 1..Len(s) : s[k] = v THEN s ELSE SelectSeq(s, LAMBDA x : x < v) \o <<v>> \o SelectSeq(s, LAMBDA x : x > v)
Full(i) == Len(E(i)) = Cap(i)
LastOf(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Step(o) ==
    LET i == o[2] IN
    CASE o[1] = "new" -> To(Set(i, <<o[3], o[4], <<>>>>), 0)
      [] o[1] = "build" -> To(Set(i, <<o[3], 0, With(With(<<>>, o[4]), o[5])>>), 0)
      [] o[1] = "clear" -> To(Set(i, <<Id(i), Cap(i), <<>>>>), 0)
      [] o[1] \in {"insert", "insertm", "emplace"} -> To(Set(i, <<Id(i), Cap(i), With(E(i), o[3])>>), IF Has(i, o[3]) THEN 0 ELSE 1)
      [] o[1] = "erase" -> To(Set(i, <<Id(i), Cap(i), SelectSeq(E(i), LAMBDA x : x # o[3])>>), IF Has(i, o[3]) THEN 1 ELSE 0)
      [] o[1] = "find" -> To(c, IF Has(i, o[3]) THEN 1 ELSE 0)
      [] o[1] \in {"pushb", "pushbm"} -> Cap(i) > 0 /\ To(Set(i, <<Id(i), Cap(i), (IF Full(i) THEN Tail(E(i)) ELSE E(i)) \o <<o[3]>>>>), 0)
      [] o[1] \in {"pushf", "pushfm"} -> Cap(i) > 0 /\ To(Set(i, <<Id(i), Cap(i), <<o[3]>> \o (IF Full(i) THEN Front(E(i)) ELSE E(i))>>), 0)
      \* the element that is pushed is one of the ring
      [] o[1] = "pushown" -> E(i) # <<>> /\ To(Set(i, <<Id(i), Cap(i), (IF Full(i) THEN Tail(E(i)) ELSE E(i)) \o <<E(i)[1]>>>>), 0)
      [] o[1] = "popf" -> E(i) # <<>> /\ To(Set(i, <<Id(i), Cap(i), Tail(E(i))>>), 0)
      [] o[1] = "popb" -> E(i) # <<>> /\ To(Set(i, <<Id(i), Cap(i), Front(E(i))>>), 0)
      [] o[1] = "reserve" -> To(Set(i, <<Id(i), o[3], LastOf(E(i), o[3])>>), 0)
      \* copies are made with the allocator of the source, assignments keep the one of the target, moves take it along
      [] o[1] = "copynew" -> i # o[3] /\ To(Set(i, c[o[3]]), 0)
      [] o[1] = "assign" -> To(Set(i, <<Id(i), Cap(o[3]), E(o[3])>>), 0)
      [] o[1] \in {"movenew", "massign"} -> i # o[3] /\ To([c EXCEPT ![i] = c[o[3]], ![o[3]] = <<Id(o[3]), 0, <<>>>>], 0)
      [] o[1] = "swap" -> i # o[3] /\ To([c EXCEPT ![i] = c[o[3]], ![o[3]] = c[i]], 0)
I == 1..N
Ops == UNION {
    {<<n, i, j>> : n \in {"copynew", "assign", "movenew", "massign", "swap"}, i \in I, j \in I},
    {<<"clear", i>> : i \in I},
    IF K = 1 THEN UNION {{<<n, i, v>> : n \in {"insert", "insertm", "emplace", "erase", "find"}, i \in I, v \in 1..V},
                         {<<"new", i, id, 0>> : i \in I, id \in 1..2}, {<<"build", i, id, a, b>> : i \in I, id \in 1..2, a \in 1..V, b \in {1}}}
    ELSE UNION {{<<n, i, v>> : n \in {"pushb", "pushbm", "pushf", "pushfm"}, i \in I, v \in 1..V},
                {<<n, i>> : n \in {"popf", "popb", "pushown"}, i \in I}, {<<"reserve", i, n>> : i \in I, n \in 1..L},
                {<<"new", i, id, n>> : i \in I, id \in 1..2, n \in 0..L}}}
Inv == \A i \in I : Len(E(i)) <= (IF K = 1 THEN V ELSE Cap(i))
=============================================================================
