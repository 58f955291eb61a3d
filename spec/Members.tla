------------------------------- MODULE Members -------------------------------
(* C54. A structure is the tuple of its members, in the order they are listed. A record is             *)
(* <<a, b, c>>: a number, a text (its codes) and an optional number (empty or one number); a nest is   *)
(* <<record, z, list of numbers>>.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Part, V     \* what is explored; numbers are 0..V
VARIABLES cur, res
vars == <<cur, res>>
View == cur
Zero == <<0, <<>>, <<>>>>
Init == cur = Zero /\ res = <<>>
Reset == cur' = Zero /\ res' = <<>>
Get(r) == cur' = cur /\ res' = r

\* ---- orders: -1 less, 0 equal, 1 greater ----
CmpN(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
RECURSIVE CmpL(_, _)
CmpL(x, y) == IF x = <<>> THEN (IF y = <<>> THEN 0 ELSE -1) ELSE IF y = <<>> THEN 1
              ELSE IF Head(x) # Head(y) THEN CmpN(Head(x), Head(y)) ELSE CmpL(Tail(x), Tail(y))
First(a, b) == IF a # 0 THEN a ELSE b
CmpR(x, y) == First(CmpN(x[1], y[1]), First(CmpL(x[2], y[2]), CmpL(x[3], y[3])))
CmpNest(x, y) == First(CmpR(x[1], y[1]), First(CmpN(x[2], y[2]), CmpL(x[3], y[3])))
B(b) == IF b THEN 1 ELSE 0
Relations(c) == <<B(c = 0), B(c # 0), B(c < 0), B(c > 0), B(c <= 0), B(c >= 0)>>
Add(x, n) == <<x[1] + n, Append(x[2], n), IF x[3] = <<>> THEN <<>> ELSE <<x[3][1] + n>>>>
Step(o) ==
    CASE o[1] = "compare" -> Get(Relations(CmpR(o[2], o[3])))
      [] o[1] = "nested" -> Get(Relations(CmpNest(o[2], o[3])))
      [] o[1] = "plain" -> Get(Relations(First(CmpN(o[2], o[4]), CmpL(o[3], o[5]))))   \* a structure that is not changed for it
      \* The hashes of equal objects are equal, of different (small) ones they differ
      [] o[1] = "hash" -> Get(B(o[2] = o[3]))
      [] o[1] = "hashlist" -> Get(B(o[2] = o[3]))
      [] o[1] = "assign" -> cur' = o[2] /\ res' = o[2]
      [] o[1] = "member" -> LET x == IF o[2] = 0 THEN <<o[3][1], cur[2], cur[3]>> ELSE IF o[2] = 1 THEN <<cur[1], o[3], cur[3]>> ELSE <<cur[1], cur[2], o[3]>>
                            IN cur' = x /\ res' = x
      [] o[1] = "add" -> cur' = Add(cur, o[2]) /\ res' = Add(cur, o[2])
      \* visited in order, with and without the index, constant and not
      [] o[1] = "visit" -> Get(<<<<0, <<cur[1]>>>>, <<1, cur[2]>>, <<2, cur[3]>>>>)
      [] o[1] = "sizes" -> Get(<<1, Len(cur[2]), Len(cur[3])>>)
      [] o[1] = "getters" -> Get(cur)
      \* tuples of the arguments: values are copied, lvalues are referred to (and changed through the tuple)
      [] o[1] = "universal" -> Get(<<o[2], <<o[3], o[4], o[3]>>>>)
      [] o[1] = "types" -> Get(<<<<0, 1, 2>>, <<2, 0, 1>>, <<1, 2, 0>>, 13>>)
Texts == {<<>>, <<1>>, <<2>>, <<1, 1>>}
Records == {<<a, b, c>> : a \in 0..V, b \in Texts, c \in {<<>>} \cup {<<i>> : i \in 0..V}}
Nests == {<<r, z, l>> : r \in {Zero, <<0, <<>>, <<0>>>>, <<1, <<1>>, <<>>>>}, z \in 0..1, l \in {<<>>, <<0>>, <<0, 1>>, <<1>>}}
Lists == UNION {[1..n -> 0..2] : n \in 0..3}
Ops == CASE Part = 1 -> {<<"compare", x, y>> : x \in Records, y \in Records} \cup {<<"nested", x, y>> : x \in Nests, y \in Nests}
                        \cup {<<"plain", a, s, b, t>> : a \in 0..1, b \in 0..1, s \in Texts, t \in Texts} \cup {<<"types">>}
         [] Part = 2 -> {<<"hash", x, y>> : x \in Nests, y \in Nests} \cup {<<"hashlist", x, y>> : x \in Lists, y \in Lists}
         [] Part = 3 -> IF cur[1] > 2 \/ Len(cur[2]) > 2 \/ (cur[3] # <<>> /\ cur[3][1] > 2) THEN {<<"visit">>, <<"sizes">>, <<"getters">>}
                        ELSE {<<"visit">>, <<"sizes">>, <<"getters">>, <<"add", 1>>, <<"add", 2>>} \cup {<<"assign", x>> : x \in Records}
                             \cup {<<"member", 0, <<i>>>> : i \in 0..V} \cup {<<"member", 1, t>> : t \in Texts} \cup {<<"member", 2, t>> : t \in {<<>>, <<0>>, <<1>>}}
                             \cup {<<"universal", i, j, k>> : i \in 0..1, j \in 0..1, k \in 2..3}
Inv == TRUE
\* The relations are total orders
ASSUME \A x, y \in Nests : CmpNest(x, y) = -CmpNest(y, x) /\ (CmpNest(x, y) = 0) = (x = y)
ASSUME \A x, y, z \in Nests : CmpNest(x, y) < 0 /\ CmpNest(y, z) < 0 => CmpNest(x, z) < 0
=============================================================================
