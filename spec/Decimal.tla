------------------------------ MODULE Decimal ------------------------------
(* C43. Decimals kept in registers. A natural number is the sequence of its decimal digits, the least *)
(* significant first, without leading zeros; a decimal is <<neg, mantissa, exponent>> and means       *)
(* (-1)^neg * mantissa / 10^exponent. The mantissa has Bits bits and the exponent is at most MaxE.    *)
(* Every operation gives the exact number or throws and changes nothing.                              *)
(* Texts are sequences of codes: 0..9, 10 is '.', 11 is '-', 12 is '+', other codes are not allowed.  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS R, Bits, MaxE,
          Wide,   \* 0: fewer decimals are explored
          Part    \* what is explored exhaustively: 1 pairs, 2 single decimals, 3 texts, 4 binary fractions
VARIABLES x, res
vars == <<x, res>>
View == x

\* ---- natural numbers
RECURSIVE Trim(_), Carry(_, _, _, _), Nat2(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
\* Digits from columns, which can be greater than 9 or negative
Carry(a, i, c, n) ==
    IF i > n THEN IF c = 0 THEN <<>> ELSE <<c % 10>> \o Carry(a, i, c \div 10, n)
    ELSE LET s == a[i] + c IN <<s % 10>> \o Carry(a, i + 1, s \div 10, n)
Norm(a, n) == Trim(Carry(a, 1, 0, n))
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Longer(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
Add(a, b) == LET n == Longer(a, b) IN Norm([i \in 1..n |-> At(a, i) + At(b, i)], n)
Sub(a, b) == LET n == Longer(a, b) IN Norm([i \in 1..n |-> At(a, i) - At(b, i)], n)     \* a >= b
RECURSIVE Column(_, _, _, _)
Column(a, b, k, i) == IF i > Len(a) \/ i > k THEN 0 ELSE (IF k - i + 1 <= Len(b) THEN a[i] * b[k - i + 1] ELSE 0) + Column(a, b, k, i + 1)
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE LET n == Len(a) + Len(b) - 1 IN Norm([k \in 1..n |-> Column(a, b, k, 1)], n)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))
Zeros == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
           0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
           0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
Shift(a, k) == IF a = <<>> THEN <<>> ELSE SubSeq(Zeros, 1, k) \o a
Drop(a, k) == SubSeq(a, k + 1, Len(a))
Divisible(a, k) == \A i \in 1..k : At(a, i) = 0
Nat2(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o Nat2(n \div 10)
RECURSIVE Power2(_)
Power2(n) == IF n = 0 THEN <<1>> ELSE LET h == Power2(n - 1) IN Add(h, h)
\* Computed once: TLC would evaluate them again and again
ASSUME TLCSet(1, Sub(Power2(Bits), <<1>>)) /\ TLCSet(2, Sub(Power2(63), <<1>>))
Max == TLCGet(1)
MaxNano == TLCGet(2)
Fits(a) == Cmp(a, Max) <= 0
One == <<1>>

\* ---- integers <<neg, natural>>
Neg(s, a) == IF a = <<>> THEN 0 ELSE s
IAdd(p, q) ==
    IF p[1] = q[1] THEN <<p[1], Add(p[2], q[2])>>
    ELSE IF Cmp(p[2], q[2]) >= 0 THEN LET d == Sub(p[2], q[2]) IN <<Neg(p[1], d), d>>
    ELSE <<q[1], Sub(q[2], p[2])>>
ICmp(p, q) ==
    IF p[1] # q[1] THEN (IF p[1] = 1 THEN -1 ELSE 1)
    ELSE IF p[1] = 0 THEN Cmp(p[2], q[2]) ELSE Cmp(q[2], p[2])

\* ---- decimals; a result is a decimal or Thrown
Thrown == <<>>
Zero == <<0, <<>>, 0>>
Make(s, a, e) == IF e > MaxE \/ ~Fits(a) THEN Thrown ELSE <<Neg(s, a), a, e>>
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a < b THEN b ELSE a
Rescale(v, d, check) ==
    IF d >= v[3] THEN Make(v[1], Shift(v[2], d - v[3]), d)
    ELSE IF check /\ ~Divisible(v[2], v[3] - d) THEN Thrown ELSE Make(v[1], Drop(v[2], v[3] - d), d)
Extend(v, d) == IF d <= v[3] THEN v ELSE Rescale(v, d, TRUE)
Truncate(v, d) == IF d >= v[3] THEN v ELSE Rescale(v, d, FALSE)
Away(v, d) ==
    IF d >= v[3] THEN v
    ELSE LET k == v[3] - d t == Drop(v[2], k) IN <<v[1], IF Divisible(v[2], k) THEN t ELSE Add(t, One), d>>
Floor(v, d) == IF v[1] = 0 THEN Truncate(v, d) ELSE Away(v, d)
Ceil(v, d) == IF v[1] = 1 THEN Truncate(v, d) ELSE Away(v, d)
RECURSIVE Normalize(_)
Normalize(v) ==
    IF v[2] = <<>> THEN Zero
    ELSE IF v[3] > 0 /\ v[2][1] = 0 THEN Normalize(<<v[1], Tail(v[2]), v[3] - 1>>) ELSE v
\* Both operands with the same number of digits
Aligned(a, b) == LET e == Most(a[3], b[3]) IN <<Rescale(a, e, TRUE), Rescale(b, e, TRUE)>>
Plus(a, b) ==
    LET l == Aligned(a, b) IN
    IF Thrown \in {l[1], l[2]} THEN Thrown
    ELSE LET s == IAdd(<<l[1][1], l[1][2]>>, <<l[2][1], l[2][2]>>) IN Make(s[1], s[2], l[1][3])
Minus(v) == <<Neg(1 - v[1], v[2]), v[2], v[3]>>
\* The product has at least Len + Len - 1 digits
Times(a, b) ==
    IF a[3] + b[3] > MaxE \/ Len(a[2]) + Len(b[2]) - 1 > Len(Max) THEN Thrown
    ELSE Make((a[1] + b[1]) % 2, Mul(a[2], b[2]), a[3] + b[3])
\* Comparison never throws
Compare(a, b) ==
    LET e == Most(a[3], b[3])
    IN ICmp(<<a[1], Shift(a[2], e - a[3])>>, <<b[1], Shift(b[2], e - b[3])>>)
Bit(b) == IF b THEN 1 ELSE 0

\* ---- text
Rev(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]
Text(v) ==
    LET k == v[3]
        frac == [i \in 1..k |-> At(v[2], k + 1 - i)]
        int == Rev(Drop(v[2], k))
    IN (IF v[1] = 1 THEN <<11>> ELSE <<>>) \o (IF int = <<>> THEN <<0>> ELSE int) \o (IF k = 0 THEN <<>> ELSE <<10>> \o frac)
Point(t) == IF \E i \in 1..Len(t) : t[i] = 10 THEN CHOOSE i \in 1..Len(t) : t[i] = 10 /\ \A j \in 1..(i - 1) : t[j] # 10 ELSE Len(t) + 1
\* A sign, digits, a point and digits; at least one digit. Zeros at the end of the fraction do not count.
Parse(text) ==
    LET sign == text # <<>> /\ text[1] \in {11, 12}
        t == IF sign THEN Tail(text) ELSE text
        p == Point(t)
        int == SubSeq(t, 1, p - 1)
        frac == SubSeq(t, p + 1, Len(t))
        fr == Trim(frac)
        good == (\A i \in 1..Len(int) : int[i] \in 0..9) /\ (\A i \in 1..Len(frac) : frac[i] \in 0..9) /\ int \o frac # <<>>
    IN IF ~good THEN Thrown ELSE Make(Bit(sign /\ text[1] = 11), Trim(Rev(int \o fr)), Len(fr))

\* ---- numbers of other types
\* k / 2^n multiplied by 10^e is a / 2^n: rounded to the nearest (1), up (2), down (3) or to zero (4)
FromBinary(mode, k, n, e) ==
    LET a == (IF k < 0 THEN -k ELSE k) * (10 ^ e)
        q == a \div (2 ^ n)
        rest == a % (2 ^ n)
        away == CASE mode = 1 -> 2 * rest >= 2 ^ n
                  [] mode = 2 -> rest > 0 /\ k > 0
                  [] mode = 3 -> rest > 0 /\ k < 0
                  [] OTHER -> FALSE
    IN Make(Bit(k < 0), Nat2(q + Bit(away)), e)
\* A power of two; -1 stands for infinity and -2 for a value that is not a number
FromPower(mode, neg, p, e) == IF p < 0 THEN Thrown ELSE Make(neg, Shift(Power2(p), e), e)
\* Nanoseconds are 64 bit integers
Nano(v) == LET r == Rescale(v, 9, TRUE) IN IF r = Thrown \/ Cmp(r[2], MaxNano) > 0 THEN Thrown ELSE r

Init == x = [i \in 1..R |-> Zero] /\ res = <<>>
Reset == x' = [i \in 1..R |-> Zero] /\ res' = <<>>
Set(i, v) ==
    IF v = Thrown THEN x' = x /\ res' = <<"thrown">>
    ELSE x' = [x EXCEPT ![i] = v] /\ res' = <<"ok", v[1], v[2], v[3]>>
Get(r) == x' = x /\ res' = r
Flag(c) == <<"ok", Bit(c = 0), Bit(c # 0), Bit(c < 0), Bit(c > 0), Bit(c <= 0), Bit(c >= 0)>>
Result(o, v, d) ==
    CASE o = "rescale" -> Rescale(v, d, TRUE)
      [] o = "trim" -> Rescale(v, d, FALSE)
      [] o = "extend" -> Extend(v, d)
      [] o = "truncate" -> Truncate(v, d)
      [] o = "floor" -> Floor(v, d)
      [] o = "ceil" -> Ceil(v, d)
Binary(o, a, b) == CASE o = "add" -> Plus(a, b) [] o = "sub" -> Plus(a, Minus(b)) [] o = "mul" -> Times(a, b)
Whole(v) == LET k == v[3] a == Drop(v[2], k) IN <<"ok", Neg(v[1], a), a>>
Whole2(v) == IF v = Thrown THEN <<"thrown">> ELSE <<"ok", v[1], v[2]>>
\* All results for given operands at once
Show(v) == IF v = Thrown THEN <<"thrown">> ELSE <<"ok", v[1], v[2], v[3]>>
Pair(a, b) == <<Show(Plus(a, b)), Show(Plus(a, Minus(b))), Show(Times(a, b)), Flag(Compare(a, b))>>
Unary(v, d) ==
    <<Show(Rescale(v, d, TRUE)), Show(Rescale(v, d, FALSE)), Show(Extend(v, d)), Show(Truncate(v, d)), Show(Floor(v, d)),
      Show(Ceil(v, d)), Show(Normalize(v)), Show(Minus(v)), Text(v), Show(Parse(Text(v))), Whole(v), Whole2(Nano(v))>>
Step(o) ==
    CASE o[1] = "make" -> Set(o[2], Make(o[3], o[4], o[5]))
      [] o[1] = "parse" -> Set(o[2], Parse(o[3]))
      [] o[1] = "wparse" -> Set(o[2], Parse(o[3]))
      [] o[1] = "integer" -> Set(o[2], Make(o[3], Shift(o[4], o[5]), o[5]))
      [] o[1] = "binary" -> Set(o[2], FromBinary(o[3], o[4], o[5], o[6]))
      [] o[1] \in {"add", "sub", "mul"} -> Set(o[2], Binary(o[1], x[o[3]], x[o[4]]))
      [] o[1] = "neg" -> Set(o[2], Minus(x[o[3]]))
      [] o[1] = "copy" -> Set(o[2], x[o[3]])
      [] o[1] = "normalize" -> Set(o[2], Normalize(x[o[3]]))
      [] o[1] = "limit" -> Set(o[2], <<o[3], Max, 0>>)
      [] o[1] \in {"rescale", "trim", "extend", "truncate", "floor", "ceil"} -> Set(o[2], Result(o[1], x[o[3]], o[4]))
      [] o[1] = "compare" -> Get(Flag(Compare(x[o[2]], x[o[3]])))
      [] o[1] \in {"text", "wtext"} -> Get(<<"ok", Text(x[o[2]])>>)
      [] o[1] = "whole" -> Get(Whole(x[o[2]]))
      [] o[1] = "nano" -> Get(Whole2(Nano(x[o[2]])))
      [] o[1] = "mantissa" -> Get(Whole2(Rescale(x[o[2]], o[3], TRUE)))
      [] o[1] = "pair" -> Get(Pair(Make(o[2], o[3], o[4]), Make(o[5], o[6], o[7])))
      [] o[1] = "unary" -> Get(Unary(Make(o[2], o[3], o[4]), o[5]))
      [] o[1] = "try" -> Get(Show(Parse(o[2])))
      [] o[1] = "power" -> Get(Show(FromPower(o[2], o[3], o[4], o[5])))
      [] o[1] = "fraction" -> Get(Show(FromBinary(o[2], o[3], o[4], o[5])))
\* The numbers near the limits
Around(a) == {a, Add(a, One)} \cup (IF a = <<>> THEN {} ELSE {Sub(a, One)})
Edge(k) == Around(Drop(Max, k))
Mans == {<<>>, One, <<2>>, <<5>>, <<9>>, <<0, 1>>, <<5, 9>>, <<9, 9>>, <<0, 5, 1>>} \cup {Max, Sub(Max, One), Drop(Max, 1), Add(Drop(Max, 1), One), Drop(Max, MaxE)}
    \cup {Drop(Max, 2), Trim(Shift(Drop(Max, 2), 2))} \cup {Shift(One, Len(Max) - 1), Shift(One, Len(Max) \div 2), Drop(Max, Len(Max) \div 2)}
More == Mans \cup UNION {Edge(k) \cup Around(Shift(One, k)) \cup {Shift(<<5>>, k)} : k \in 0..(Len(Max) - 1)}
Exps == (IF Wide = 1 THEN {0, 1, 2, 9, MaxE \div 2, MaxE - 1, MaxE} ELSE {0, 1, 2, MaxE - 1, MaxE}) \cap 0..MaxE
Few == IF Wide = 1 THEN Mans ELSE {<<>>, One, <<5>>, <<0, 1>>, <<9, 9>>, Max, Drop(Max, 1), Add(Drop(Max, 1), One), Shift(One, Len(Max) \div 2)}
V == {0, 1} \X {m \in Few : Fits(m)} \X Exps
MoreV == {0, 1} \X {m \in More : Fits(m)} \X (IF Wide = 1 THEN 0..MaxE ELSE Exps)
Codes == {0, 1, 5, 10, 11, 12, 13}
Texts == UNION {[1..n -> Codes] : n \in 0..4}
Long == UNION {{<<Rev(m), Rev(l)>> : m \in More, l \in {<<>>, <<1>>, <<0>>, Max}}}
\* The digits of the numbers at the limit with the point at every position
WithPoint(l, k) == SubSeq(l, 1, k) \o <<10>> \o SubSeq(l, k + 1, Len(l))
Limits == {WithPoint(Rev(m), k) : m \in Around(Max) \cup Around(Add(Max, <<5>>)), k \in 0..Len(Max)}
Ops == CASE Part = 1 -> {<<"pair", a[1], a[2], a[3], b[1], b[2], b[3]>> : a \in V, b \in V}
         [] Part = 2 -> {<<"unary", v[1], v[2], v[3], d>> : v \in MoreV, d \in Exps \cup {MaxE + 1, 255}}
         [] Part = 3 -> {<<"try", t>> : t \in Texts \cup Limits \cup {<<11>> \o t[1] \o <<10>> \o t[2] : t \in Long} \cup {<<0>> \o t[2] \o t[1] : t \in Long}
                                       \cup {<<1, 10>> \o [i \in 1..n |-> 0] \o t : n \in {MaxE - 1, MaxE, 40, 255, 256, 257, 300}, t \in {<<>>, <<1>>, <<1, 0>>}}}
         [] Part = 4 -> {<<"fraction", m, k, n, e>> : m \in 1..4, k \in -40..40, n \in 0..4, e \in 0..Least(MaxE, 3)}
                        \cup {<<"fraction", m, k, n, e>> : m \in 1..4, k \in {1000001, -1000001, 999999, -8388607, 8388609}, n \in {0, 1, 3}, e \in 0..1}
                        \cup {<<"power", m, s, p, e>> : m \in 1..4, s \in 0..1, p \in -2..(Bits + 3) \cup {126, 127, 128, 129, 150, 199}, e \in {0, 1, Least(MaxE, 5), Least(MaxE, 15), Least(MaxE, 22)}}
\* The arithmetic of digits is the arithmetic of integers
ASSUME \A a \in 0..120, b \in {0, 1, 9, 10, 99, 101, 1234} :
    /\ Add(Nat2(a), Nat2(b)) = Nat2(a + b)
    /\ Mul(Nat2(a), Nat2(b)) = Nat2(a * b)
    /\ Cmp(Nat2(a), Nat2(b)) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
    /\ a >= b => Sub(Nat2(a), Nat2(b)) = Nat2(a - b)
    /\ Drop(Nat2(a), 1) = Nat2(a \div 10)
Inv == \A i \in 1..R : Fits(x[i][2]) /\ x[i][3] \in 0..MaxE
=============================================================================
