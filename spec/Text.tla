-------------------------------- MODULE Text --------------------------------
(* C53. Texts: comparison, conversion between bytes (UTF-8) and wide characters, fixed strings,        *)
(* separators, printing. A text is the sequence of its codes, a large number the sequence of its       *)
(* decimal digits.                                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Part     \* what is explored
VARIABLES none, res
vars == <<none, res>>
View == none
Init == none = 0 /\ res = <<>>
Reset == none' = 0 /\ res' = <<>>
Get(r) == none' = 0 /\ res' = r
B(b) == IF b THEN 1 ELSE 0

\* ---- comparison ----
RECURSIVE Cmp(_, _)
Cmp(x, y) == IF x = <<>> THEN (IF y = <<>> THEN 0 ELSE -1) ELSE IF y = <<>> THEN 1
             ELSE IF Head(x) # Head(y) THEN (IF Head(x) < Head(y) THEN -1 ELSE 1) ELSE Cmp(Tail(x), Tail(y))
Lower(x) == [i \in DOMAIN x |-> IF x[i] \in 65..90 THEN x[i] + 32 ELSE x[i]]
Order(c) == <<B(c < 0), B(c > 0), B(c = 0)>>

\* ---- UTF-8 ----
Bytes(c) == IF c < 128 THEN <<c>>
            ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
            ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Scalar(c) == c \in 1..1114111 /\ c \notin 55296..57343
RECURSIVE Encoded(_)
Encoded(x) == IF x = <<>> THEN <<>> ELSE Bytes(Head(x)) \o Encoded(Tail(x))
Thrown == <<"thrown">>
Encode(x) == IF \E i \in DOMAIN x : ~Scalar(x[i]) THEN Thrown ELSE <<"ok", Encoded(x)>>
\* The length of the sequence a byte begins, 0 if none
Length(b) == IF b < 128 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 0
RECURSIVE Decoded(_, _)
Decoded(s, a) ==
    IF s = <<>> THEN <<"ok", a>>
    ELSE LET n == Length(s[1]) IN
         IF n = 0 \/ Len(s) < n \/ \E i \in 2..n : s[i] \notin 128..191 THEN Thrown
         ELSE LET c == IF n = 1 THEN s[1] ELSE IF n = 2 THEN ((s[1] - 192) * 64) + (s[2] - 128)
                       ELSE IF n = 3 THEN ((s[1] - 224) * 4096) + ((s[2] - 128) * 64) + (s[3] - 128)
                       ELSE ((s[1] - 240) * 262144) + ((s[2] - 128) * 4096) + ((s[3] - 128) * 64) + (s[4] - 128)
              IN IF ~Scalar(c) \/ Len(Bytes(c)) # n THEN Thrown ELSE Decoded(SubSeq(s, n + 1, Len(s)), Append(a, c))
Decode(s) == Decoded(s, <<>>)

\* ---- printing ----
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Number(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
Fill(n, c) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
Pad(s, w, f, left) == IF left = 1 THEN s \o Fill(w - Len(s), f) ELSE Fill(w - Len(s), f) \o s
RECURSIVE Join(_, _, _)
Join(s, items, first) == IF items = <<>> THEN <<>> ELSE (IF first THEN <<>> ELSE s) \o Head(items) \o Join(s, Tail(items), FALSE)
Empty == <<101, 109, 112, 116, 121>>
RECURSIVE Formatted(_)
Formatted(p) == IF p = <<>> THEN <<>>
                ELSE (CASE Head(p)[1] = "number" -> Number(Head(p)[2])
                        [] Head(p)[1] = "code" -> <<Head(p)[2]>>
                        [] Head(p)[1] = "some" -> IF Head(p)[2] = <<>> THEN Empty ELSE Number(Head(p)[2][1])
                        [] OTHER -> Head(p)[2]) \o Formatted(Tail(p))
\* The date of a day since 1970-01-01
Civil(day) == LET z == day + 719468  era == z \div 146097  doe == z % 146097
                  yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
                  doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
                  mp == (5 * doy + 2) \div 153
                  m == IF mp < 10 THEN mp + 3 ELSE mp - 9
              IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - ((153 * mp + 2) \div 5) + 1>>
Zeros(n, w) == Pad(Digits(n), w, 48, 0)
Stamp(day, sec, nano) == LET c == Civil(day) IN
    Zeros(c[1], 4) \o <<45>> \o Zeros(c[2], 2) \o <<45>> \o Zeros(c[3], 2) \o <<32>>
    \o Zeros(sec \div 3600, 2) \o <<58>> \o Zeros((sec \div 60) % 60, 2) \o <<58>> \o Zeros(sec % 60, 2) \o <<46>> \o Zeros(nano, 9)
Levels == <<<<68, 101, 98, 117, 103>>, <<84, 114, 97, 99, 101>>, <<73, 110, 102, 111>>, <<87, 97, 114, 110, 105, 110, 103>>, <<69, 114, 114, 111, 114>>>>
Step(o) ==
    CASE o[1] = "compare" -> Get(<<Order(Cmp(o[2], o[3])), Len(o[2])>>)
      [] o[1] = "insensitive" -> Get(Order(Cmp(Lower(o[2]), Lower(o[3]))))
      [] o[1] = "encode" -> Get(Encode(o[2]))
      [] o[1] = "decode" -> Get(Decode(o[2]))
      [] o[1] = "fixed" -> Get(<<o[2] \o o[3], B(o[2] = o[3])>>)
      [] o[1] = "join" -> Get(Join(IF o[2] = 0 THEN o[3] \o <<32>> ELSE o[3], o[4], TRUE))    \* 0 a character (and a space), 1 a text,
      [] o[1] = "joinmore" -> Get(Join(o[2], o[3], FALSE))                                     \* a text after the first was skipped
      [] o[1] = "optional" -> Get(IF o[2] = <<>> THEN Empty ELSE Number(o[2][1]))
      [] o[1] = "optionaltext" -> Get(IF o[2] = <<>> THEN Empty ELSE o[2][1])
      [] o[1] = "format" -> Get(Formatted(o[2]))
      [] o[1] = "unsigned" -> Get(Pad(o[2], o[3], o[4], o[5]))         \* digits, width, filling, at the left
      [] o[1] = "signed" -> Get((IF o[2] = 1 THEN <<45>> ELSE <<>>) \o o[3])
      [] o[1] = "exception" -> Get(o[2])       \* the message an exception was made with
      [] o[1] = "log" -> Get(Stamp(o[2], o[3], o[4]) \o <<9>> \o Levels[o[5] + 1] \o <<9>> \o o[6] \o <<10>>)
Letters == {65, 97, 90, 98, 91}
Words(S, n) == UNION {[1..k -> S] : k \in 0..n}
Codes == {1, 127, 128, 2047, 2048, 55295, 55296, 57343, 57344, 65535, 65536, 1114111}
Byte == {65, 127, 128, 159, 160, 191, 192, 193, 194, 223, 224, 237, 239, 240, 244, 245, 255}
\* Digits of powers of two and of ten and their neighbours, and the limits
P39 == <<51, 52, 48, 50, 56, 50, 51, 54, 54, 57, 50, 48, 57, 51, 56, 52, 54, 51, 52, 54, 51, 51, 55, 52, 54, 48, 55, 52, 51, 49, 55, 54, 56, 50, 49, 49, 52, 53, 53>>     \* 2^128 - 1
M39 == <<49, 55, 48, 49, 52, 49, 49, 56, 51, 52, 54, 48, 52, 54, 57, 50, 51, 49, 55, 51, 49, 54, 56, 55, 51, 48, 51, 55, 49, 53, 56, 56, 52, 49, 48, 53, 55, 50, 56>>     \* 2^127
P20 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54>>   \* 2^64
Ten(n) == <<49>> \o Fill(n, 48)
Big == {P39, M39, P20, <<48>>, <<57>>} \cup {Ten(n) : n \in 1..38} \cup {Fill(n, 57) : n \in 1..38}
Ops == CASE Part = 1 -> {<<"compare", x, y>> : x \in Words(Letters, 2), y \in Words(Letters, 2)}
                        \cup {<<"insensitive", x, y>> : x \in Words(Letters, 3), y \in Words({66, 97, 123}, 2)}
                        \cup {<<"insensitive", <<a>>, <<b>>>> : a \in 1..127, b \in 1..127}
                        \cup {<<"fixed", x, y>> : x \in Words({97, 200}, 3), y \in Words({97, 200}, 3)}
         [] Part = 2 -> {<<"encode", x>> : x \in Words(Codes, 2)} \cup {<<"decode", x>> : x \in Words(Byte, 3)}
                        \cup {<<"decode", <<65, a, b, c, d>>>> : a \in {240, 241, 239}, b \in {128, 143, 144, 191, 192}, c \in {127, 128, 191, 192}, d \in {65, 128, 191}}
                        \cup {<<"decode", <<244, b, c, d>>>> : b \in {128, 143, 127, 192}, c \in {127, 128, 191, 192}, d \in {65, 128, 191}}  \* beyond the last code the C library is lenient
         [] Part = 3 -> {<<"join", k, s, items>> : k \in 0..1, s \in {<<44>>, <<97>>}, items \in Words({<<>>, <<97>>, <<98, 44>>}, 3)}
                        \cup {<<"join", 1, s, items>> : s \in {<<>>, <<44, 32, 44>>}, items \in Words({<<>>, <<97>>}, 3)}
                        \cup {<<"joinmore", s, items>> : s \in {<<>>, <<44, 32>>}, items \in Words({<<>>, <<97>>}, 2)}
                        \cup {<<"optional", x>> : x \in {<<>>} \cup {<<n>> : n \in {0, 1, -1, 10, 2147483647, -2147483647}}}
                        \cup {<<"optionaltext", x>> : x \in {<<>>, <<<<>>>>, <<<<97, 98>>>>}}
                        \cup {<<"format", p>> : p \in Words({<<"number", 0>>, <<"number", -12>>, <<"code", 120>>, <<"text", <<>>>>, <<"text", <<97, 32, 98>>>>, <<"string", <<99>>>>, <<"some", <<>>>>, <<"some", <<7>>>>}, 3)}
                        \cup {<<"exception", m>> : m \in {<<>>, <<97, 32, 98>>}}
                        \cup {<<"log", d, s, n, l, m>> : d \in {0, 11016, 19782, 20000}, s \in {0, 86399}, n \in {0, 1, 999999999}, l \in 0..4, m \in {<<>>, <<97, 9, 98>>}}
         [] OTHER -> {<<"unsigned", x, w, 32, l>> : x \in Big, w \in {0, 1, 5, 19, 20, 21, 38, 39, 40, 45}, l \in 0..1} \cup {<<"unsigned", x, w, 48, 0>> : x \in Big, w \in {0, 20, 40}}
                     \cup {<<"signed", 1, x>> : x \in Big \ {P39, <<48>>}} \cup {<<"signed", 0, x>> : x \in Big \ {P39, M39}}
Inv == TRUE
\* What is encoded is decoded to the same
ASSUME \A x \in Words(Codes \ {55296, 57343}, 2) : Decode(Encoded(x)) = <<"ok", x>>
ASSUME \A x \in Words(Byte, 3) : Decode(x) # Thrown => Encoded(Decode(x)[2]) = x
ASSUME Civil(0) = <<1970, 1, 1>> /\ Civil(19782) = <<2024, 2, 29>> /\ Civil(11016) = <<2000, 2, 29>>
=============================================================================
