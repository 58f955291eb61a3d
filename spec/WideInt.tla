------------------------------- MODULE WideInt -------------------------------
(* C56. Multiprecision integers in a stream. A number is <<neg, magnitude>>, the magnitude being its   *)
(* bytes, the most significant first, without leading zeros. Type t (0..7) has 16, 32, 64 or 128 bytes *)
(* and a sign if t is even.                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Part
VARIABLES none, res
vars == <<none, res>>
View == none
Init == none = 0 /\ res = <<>>
Reset == none' = 0 /\ res' = <<>>
Get(r) == UNCHANGED none /\ res' = r

Width(t) == 16 * 2 ^ (t \div 2)
Signed(t) == t % 2 = 0
Limit == 127        \* bytes: the size and the sign share one byte
\* ---- the stored form
Form(neg, m) == IF m = <<>> THEN <<1, 0>> ELSE <<Len(m) + 128 * neg>> \o m
Store(neg, m) == IF Len(m) > Limit THEN <<"too long">> ELSE Form(neg, m)
RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[1] = 0 THEN Trim(Tail(m)) ELSE m
\* ---- what a type reads from bytes
Read(t, b) ==
    IF b = <<>> THEN <<"end">>
    ELSE LET n == b[1] % 128 neg == b[1] \div 128 IN
         IF n = 0 \/ n > Width(t) \/ (neg = 1 /\ ~Signed(t)) THEN <<"corrupted">>
         ELSE IF Len(b) < n + 1 THEN <<"end">>
         ELSE LET m == Trim(SubSeq(b, 2, n + 1)) IN <<<<IF m = <<>> THEN 0 ELSE neg, m>>, SubSeq(b, n + 2, Len(b))>>
\* ---- sequences of numbers <<t, neg, magnitude>>
RECURSIVE Cat(_)
Cat(l) == IF l = <<>> THEN <<>> ELSE Form(Head(l)[2], Head(l)[3]) \o Cat(Tail(l))
\* ---- the bits of a decimal of 128 bits: sign, 5 bits of the exponent, the mantissa (bytes)
BitsOf(n, k) == [i \in 1..k |-> (n \div 2 ^ (i - 1)) % 2]
RECURSIVE ManBits(_)
ManBits(m) == IF m = <<>> THEN <<>> ELSE BitsOf(m[Len(m)], 8) \o ManBits(SubSeq(m, 1, Len(m) - 1))
RECURSIVE Pack(_, _)
Pack(bits, k) == IF k = 0 THEN <<>>
                 ELSE LET B(i) == IF 8 * (k - 1) + i <= Len(bits) THEN bits[8 * (k - 1) + i] ELSE 0
                      IN <<B(1) + 2 * B(2) + 4 * B(3) + 8 * B(4) + 16 * B(5) + 32 * B(6) + 64 * B(7) + 128 * B(8)>> \o Pack(bits, k - 1)
DecBits(neg, e, m) == Trim(Pack(<<neg>> \o BitsOf(e, 5) \o ManBits(m), 16))
MultiInt == <<109, 117, 108, 116, 105, 95, 105, 110, 116>>
Seven == <<0, <<7>>>>

Step(o) ==
    CASE o[1] = "store" -> Get(Store(o[3], o[4]))
      [] o[1] = "read" -> Get(Read(o[2], o[3]))
      [] o[1] = "stream" -> Get(<<Cat(o[2]), [i \in DOMAIN o[2] |-> <<o[2][i][2], o[2][i][3]>>], 1>>)
      [] o[1] = "decimal" -> Get(Form(0, DecBits(IF o[4] = <<>> THEN 0 ELSE o[2], o[3], o[4])))
      \* a field that was removed is skipped, one that was added keeps its value, they are found by name
      [] o[1] = "fields" -> Get(<<o[2], <<IF o[4] = <<>> THEN 0 ELSE o[3], o[4]>>, Seven>>)
      [] o[1] = "names" -> Get([t \in 1..8 |-> MultiInt])

\* ---- what is explored
Fill(n, x) == [i \in 1..n |-> x]
Mags(w) == {<<>>, <<1>>, <<127>>, <<128>>, <<255>>, <<1, 0>>, <<255, 255>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>} \cup
           {<<x>> \o Fill(n - 1, y) : n \in {k \in {8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128} : k <= w}, x \in {1, 127, 128, 255}, y \in {0, 255}}
Negs(t) == IF Signed(t) THEN {0, 1} ELSE {0}
Numbers(w) == {<<t, n, m>> : t \in {0, 1, 3, 4}, n \in {0}, m \in w} \cup {<<t, 1, m>> : t \in {0, 4}, m \in w \ {<<>>}}
Ops == CASE Part = 1 -> UNION {{<<"store", t, n, m>> : n \in Negs(t), m \in Mags(Width(t))} : t \in 0..7} \cup {<<"names">>}
         [] Part = 2 -> {<<"read", t, b>> : t \in 0..7, b \in {<<>>} \cup {<<n>> : n \in 0..255} \cup {<<n>> \o Fill(k, x) : n \in {0, 1, 2, 15, 16, 17, 32, 33, 64, 65, 127, 128, 129, 130, 143, 144, 145, 160, 161, 192, 193, 255}, k \in {1, 2, 15, 16, 17, 18, 34, 66, 127, 130}, x \in {0, 1, 255}}}
                        \cup {<<"read", t, <<3, 0, 1, 2, 9>>>> : t \in 0..7}
         [] Part = 3 -> {<<"stream", l>> : l \in UNION {[1..n -> Numbers({<<>>, <<255>>, <<1, 0>>})] : n \in 0..2}}
                        \cup {<<"decimal", n, e, m>> : n \in {0, 1}, e \in {0, 1, 7, 18}, m \in Mags(15)}
                        \cup {<<"fields", x, n, m, g>> : x \in {0, 5}, n \in {0, 1}, m \in {<<>>, <<1>>, <<200, 1>>} \cup {Fill(32, 255)}, g \in {<<>>, <<3>>, Fill(16, 1)}}
Inv == TRUE
\* Every number that fits is read back from its form, whatever follows
ASSUME \A t \in 0..7, n \in {0, 1}, m \in {<<>>, <<1>>, <<255, 0>>, Fill(16, 255)} :
    (n = 0 \/ (Signed(t) /\ m # <<>>)) => Read(t, Form(n, m) \o <<5>>) = <<<<n, m>>, <<5>>>>
=============================================================================
