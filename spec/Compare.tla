------------------------------- MODULE Compare -------------------------------
(* C45. Objects are <<a, b, c>>. A comparer is a list of criteria <<field, reversed, modulus>>: the   *)
(* objects are compared by the keys of the fields in turn (by the remainder when there is a modulus). *)
(* Def(n) says what the comparer number n of the harness is composed of; Key: it also compares with   *)
(* keys, which are the lists of the values of its fields.                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS A, B, C
VARIABLES x, res
vars == <<x, res>>
View == x
a == <<1, 0, 0>>
b == <<2, 0, 0>>
c == <<3, 0, 0>>
Rev(l) == [i \in 1..Len(l) |-> <<l[i][1], 1 - l[i][2], l[i][3]>>]
Mod(k, n) == <<k[1], k[2], n>>
RA == Rev(<<a>>)[1]
RB == Rev(<<b>>)[1]
RC == Rev(<<c>>)[1]
Defs == <<
    \* 1..6 one key: a member, a function, with another comparison, of the reflected structure
    <<a>>, <<b>>, <<c>>, <<RA>>, <<Mod(a, 2)>>, <<b>>,
    \* 7..12 composite
    <<a, b>>, <<b, RA, c>>, <<c, b, a>>, <<RB, a>>, <<Mod(a, 2), Mod(c, 3), b>>, <<a>>,
    \* 13..18 transparent composite
    <<a, b>>, <<b, RA, c>>, <<c, b, a>>, <<RB, a>>, <<Mod(a, 2), Mod(c, 3), b>>, <<a>>,
    \* 19..24 reversed
    <<RA>>, <<RA>>, <<RA, RB>>, <<RA, RB>>, <<a, b>>, <<RB, a, RC>>,
    \* 25..32 of plain, shared and unique pointers
    <<a>>, <<b>>, <<c>>, <<RA>>, <<a, b>>, <<b, RC>>, <<RA, RB>>, <<Mod(a, 2), c>>,
    \* 33..35 of many comparers: composite, transparent, reversed
    <<Mod(a, 1), Mod(c, 2), b, a, c>>, <<Mod(a, 1), Mod(c, 2), b, a, RC>>, <<RA, RB, Mod(RC, 1), RC>> >>
HasKey == {1, 2, 3, 4, 5, 6} \cup 13..18 \cup {20, 22, 23} \cup {25, 26, 27, 28, 30, 31, 34}
RECURSIVE Lex(_, _, _, _)
Lex(l, i, p, q) ==
    IF i > Len(l) THEN FALSE
    ELSE LET k == l[i]
             u == IF k[3] = 0 THEN p[k[1]] ELSE p[k[1]] % k[3]
             v == IF k[3] = 0 THEN q[k[1]] ELSE q[k[1]] % k[3]
         IN IF u = v THEN Lex(l, i + 1, p, q) ELSE IF k[2] = 0 THEN u < v ELSE v < u
Less(n, p, q) == Lex(Defs[n], 1, p, q)
Bit(t) == IF t THEN 1 ELSE 0
Cmp(n, p, q) == LET l == Bit(Less(n, p, q)) g == Bit(Less(n, q, p)) IN IF n \in HasKey THEN <<l, g, l, g, l, g>> ELSE <<l, g>>
\* A sorted container keeps the first of equivalent objects
RECURSIVE Insert(_, _, _, _)
Insert(n, l, i, p) ==
    IF i > Len(l) THEN Append(l, p)
    ELSE IF Less(n, p, l[i]) THEN SubSeq(l, 1, i - 1) \o <<p>> \o SubSeq(l, i, Len(l))
    ELSE IF Less(n, l[i], p) THEN Insert(n, l, i + 1, p) ELSE l
RECURSIVE Sorted(_, _, _)
Sorted(n, l, i) == IF i = 0 THEN <<>> ELSE Insert(n, Sorted(n, l, i - 1), 1, l[i])
Find(n, l, p) == LET s == Sorted(n, l, Len(l)) IN
    IF \E i \in 1..Len(s) : ~Less(n, s[i], p) /\ ~Less(n, p, s[i])
    THEN s[CHOOSE i \in 1..Len(s) : ~Less(n, s[i], p) /\ ~Less(n, p, s[i])] ELSE <<>>
Init == x = 0 /\ res = <<>>
Reset == x' = 0 /\ res' = <<>>
Get(r) == x' = x /\ res' = r
Step(o) ==
    CASE o[1] = "compare" -> Get(Cmp(o[2], o[3], o[4]))
      [] o[1] = "sort" -> Get(Sorted(o[2], o[3], Len(o[3])))
      [] o[1] = "find" -> Get(Find(o[2], o[3], o[4]))
Objects == (0..A) \X (0..B) \X (0..C)
Ops == {<<"compare", n, p, q>> : n \in 1..Len(Defs), p \in Objects, q \in Objects}
\* Each of them is a strict weak order
ASSUME \A n \in 1..Len(Defs) :
    /\ \A p \in Objects : ~Less(n, p, p)
    /\ \A p, q, r \in (0..1) \X (0..1) \X (0..2) :
        /\ Less(n, p, q) => ~Less(n, q, p)
        /\ Less(n, p, q) => Less(n, p, r) \/ Less(n, r, q)
\* Reversing swaps the operands, twice gives the original order
ASSUME \A p, q \in Objects : \A n \in 1..Len(Defs) :
    /\ Lex(Rev(Defs[n]), 1, p, q) = Less(n, q, p)
    /\ Rev(Rev(Defs[n])) = Defs[n]
Inv == TRUE
=============================================================================
