------------------------------- MODULE BitMap -------------------------------
(* C44. Bitmaps over an enumeration of N enumerators 0..N-1, kept in registers: each is a set.        *)
(* res: the members, count, size, any, all, none and what a comparison with each register says.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS N, R
VARIABLES m, res
vars == <<m, res>>
View == m
Enum == 0..(N - 1)
Init == m = [i \in 1..R |-> {}] /\ res = <<>>
Reset == m' = [i \in 1..R |-> {}] /\ res' = <<>>
Bit(b) == IF b THEN 1 ELSE 0
List(s) == SetToSortSeq(s, <)
Show(mm, s) == <<List(s), Cardinality(s), N, Bit(s # {}), Bit(s = Enum), Bit(s = {}), [i \in 1..R |-> Bit(mm[i] = s)]>>
Set(i, s) == m' = [m EXCEPT ![i] = s] /\ res' = Show(m', s)
\* A value that is not stored
Get(s) == m' = m /\ res' = Show(m, s)
Xor(a, b) == (a \cup b) \ (a \cap b)
Do(f, a, b) == CASE f = "or" -> a \cup b [] f = "and" -> a \cap b [] f = "xor" -> Xor(a, b)
\* Stored as N bits, the first enumerator is the lowest bit of the first byte
RECURSIVE Byte(_, _, _)
Byte(s, k, b) == IF b = 8 THEN 0 ELSE (IF 8 * k + b \in s THEN 2 ^ b ELSE 0) + Byte(s, k, b + 1)
Bytes(s) == [k \in 1..((N + 7) \div 8) |-> Byte(s, k - 1, 0)]
From(bytes) == {e \in Enum : (bytes[e \div 8 + 1] \div 2 ^ (e % 8)) % 2 = 1}
F == {"or", "and", "xor"}
Step(o) ==
    CASE o[1] = "make" -> Set(o[2], {o[3][k] : k \in 1..Len(o[3])})
      [] o[1] = "set" -> Set(o[2], IF o[4] = 1 THEN m[o[2]] \cup {o[3]} ELSE m[o[2]] \ {o[3]})
      [] o[1] = "refer" -> Set(o[2], IF o[4] = 1 THEN m[o[2]] \cup {o[3]} ELSE m[o[2]] \ {o[3]})
      [] o[1] = "assign" -> Set(o[2], Do(o[3], m[o[2]], {o[4]}))
      [] o[1] = "assignall" -> Set(o[2], Do(o[3], m[o[2]], m[o[4]]))
      [] o[1] = "value" -> Get(Do(o[3], m[o[2]], {o[4]}))
      [] o[1] = "valueall" -> Get(Do(o[3], m[o[2]], m[o[4]]))
      [] o[1] = "not" -> Set(o[2], Enum \ m[o[3]])
      [] o[1] = "copy" -> Set(o[2], m[o[3]])
      [] o[1] = "store" -> m' = m /\ res' = Bytes(m[o[2]])
      [] o[1] = "restore" -> Set(o[2], From(o[3]))
Lists == {<<>>} \cup {<<a>> : a \in Enum} \cup {<<a, b>> : a \in Enum, b \in Enum}
Ops == {<<"make", i, l>> : i \in 1..R, l \in Lists}
    \cup {<<n, i, e, b>> : n \in {"set", "refer"}, i \in 1..R, e \in Enum, b \in 0..1}
    \cup {<<n, i, f, e>> : n \in {"assign", "value"}, i \in 1..R, f \in F, e \in Enum}
    \cup {<<n, i, f, j>> : n \in {"assignall", "valueall"}, i \in 1..R, f \in F, j \in 1..R}
    \cup {<<n, i, j>> : n \in {"not", "copy"}, i \in 1..R, j \in 1..R}
    \cup {<<"store", i>> : i \in 1..R}
    \cup {<<"restore", i, <<b>>>> : i \in 1..R, b \in {0, 1, 2, 5, 7, 255} \cap 0..(IF N < 9 THEN 255 ELSE -1)}
Inv == \A i \in 1..R : m[i] \subseteq Enum /\ From(Bytes(m[i])) = m[i]
=============================================================================
