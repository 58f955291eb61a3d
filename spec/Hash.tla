-------------------------------- MODULE Hash ---------------------------------
(* C52. A checksum: total is the checksum of all that was added since the beginning, continued piece   *)
(* by piece. Elements of several bytes count as their bytes, the most significant first.               *)
EXTENDS Crc
CONSTANTS Part
VARIABLES total, res
vars == <<total, res>>
View == total
Init == total = DefaultSeed /\ res = <<>>
Reset == total' = DefaultSeed /\ res' = <<>>
Get(r) == total' = total /\ res' = r
RECURSIVE Concat(_, _)
Concat(l, i) == IF i > Len(l) THEN <<>> ELSE l[i] \o Concat(l, i + 1)
\* Names of types: "int8_t", "sequence<int32_t>", "float64_t", "struct", "pair<int16_t, int64_t>"
Name(k) == CASE k = 1 -> <<105, 110, 116, 56, 95, 116>> [] k = 2 -> <<115, 101, 113, 117, 101, 110, 99, 101, 60, 105, 110, 116, 51, 50, 95, 116, 62>>
             [] k = 3 -> <<102, 108, 111, 97, 116, 54, 52, 95, 116>> [] k = 4 -> <<115, 116, 114, 117, 99, 116>>
             [] k = 5 -> <<112, 97, 105, 114, 60, 105, 110, 116, 49, 54, 95, 116, 44, 32, 105, 110, 116, 54, 52, 95, 116, 62>>
Step(o) ==
    CASE o[1] = "sum" -> Get(Checksum(o[2], o[3]))             \* of bytes, from a seed: as bytes and as an integer
      [] o[1] = "words" -> Get(Checksum(o[2], Concat(o[4], 1))) \* of integers of o[3] bytes, each given by its bytes
      [] o[1] = "add" -> total' = CrcFrom(total, o[2], 1) /\ res' = Turned(CrcFrom(total, o[2], 1))
      [] o[1] = "array" -> Get(o[2])                           \* to an array of bytes and back
      [] o[1] = "name" -> Get(Checksum(Zero, Name(o[2])))
      [] o[1] = "literal" -> Get(<<Checksum(o[2], <<>>), Checksum(o[2], <<97>>), Checksum(o[2], <<49, 50, 51, 52, 53, 54, 55, 56, 57>>), Checksum(o[2], <<0, 255, 128>>)>>)
Bit(i) == [k \in 1..8 |-> IF (i - 1) \div 8 = k - 1 THEN 2 ^ ((i - 1) % 8) ELSE 0]
Seeds == {Zero, DefaultSeed, << 255, 255, 255, 255, 255, 255, 255, 255 >>} \cup {Bit(i) : i \in 1..64}
Bytes == {0, 1, 127, 128, 255}
Ops == CASE Part = 1 ->   \* the checksum is affine: every bit of the seed and every byte
               {<<"sum", s, <<>>>> : s \in Seeds} \cup {<<"sum", s, <<b>>>> : s \in Seeds, b \in {0, 1, 255}} \cup {<<"sum", Zero, <<b>>>> : b \in 0..255}
               \cup {<<"sum", s, <<b, c>>>> : s \in {Zero, DefaultSeed}, b \in Bytes, c \in Bytes}
               \cup {<<"literal", s>> : s \in {Zero, DefaultSeed, Bit(64)}} \cup {<<"name", k>> : k \in 1..5}
         [] Part = 2 -> UNION {{<<"array", [i \in 1..n |-> IF i = k THEN b ELSE c]>> : k \in 1..n, b \in {1, 128, 255}, c \in {0, 255}} : n \in {1, 2, 4, 8, 16}}
               \cup UNION {{<<"words", s, n, <<[i \in 1..n |-> b], [i \in 1..n |-> IF i = 1 THEN c ELSE i]>>>> : s \in {Zero, DefaultSeed}, b \in Bytes, c \in Bytes} : n \in {1, 2, 4, 8}}
         [] Part = 3 -> IF total = DefaultSeed THEN {<<"add", <<b>>>> : b \in Bytes} \cup {<<"add", <<>>>>} \cup {<<"add", <<b, c>>>> : b \in Bytes, c \in Bytes}
                        ELSE {}
\* The checksum of two pieces is that of the second one from the checksum of the first one
ASSUME \A b, c \in Bytes : CrcFrom(CrcFrom(DefaultSeed, <<b>>, 1), <<c, b>>, 1) = CrcFrom(DefaultSeed, <<b, c, b>>, 1)
Inv == TRUE
=============================================================================
