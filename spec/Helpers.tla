------------------------------ MODULE Helpers -------------------------------
(* C55. Stop watches, times, durations and small numeric helpers. A time or a duration is              *)
(* <<seconds, nanoseconds>>; the clock goes only by "advance".                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Part, L     \* what is explored; the clock goes up to about L seconds
VARIABLES now, start, locked, res
vars == <<now, start, locked, res>>
View == <<now, start, locked>>
Init == now = <<0, 0>> /\ start = <<0, 0>> /\ locked = 0 /\ res = <<>>
Reset == now' = <<0, 0>> /\ start' = <<0, 0>> /\ locked' = 0 /\ res' = <<>>
Get(r) == UNCHANGED <<now, start, locked>> /\ res' = r
B(b) == IF b THEN 1 ELSE 0
G == 1000000000

Plus(a, b) == <<a[1] + b[1] + ((a[2] + b[2]) \div G), (a[2] + b[2]) % G>>
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, (a[2] + G) - b[2]>>
NotLess(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])
Elapsed == Minus(now, start)

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Zeros(n, w) == LET d == Digits(n) IN [i \in 1..(IF w > Len(d) THEN w - Len(d) ELSE 0) |-> 48] \o d
Clock(s) == Zeros(s \div 3600, 2) \o <<58>> \o Zeros((s \div 60) % 60, 2) \o <<58>> \o Zeros(s % 60, 2)
Shown(d) == Clock(d[1]) \o <<46>> \o Zeros(d[2], 9)

\* Days since 1970-01-01; the month counts from 0 and may be beyond the year
Days(y, m, d) == LET yy == y + (m \div 12)  mm == (m % 12) + 1
                     z == IF mm <= 2 THEN yy - 1 ELSE yy
                     era == z \div 400  yoe == z % 400
                     doy == ((153 * (IF mm > 2 THEN mm - 3 ELSE mm + 9) + 2) \div 5) + d - 1
                     doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
                 IN era * 146097 + doe - 719468
\* A moment of a local clock that is o hours ahead
Moment(y, m, d, h, mi, s, o) == LET sec == (h - o) * 3600 + mi * 60 + s
                                IN <<Days(y, m, d) + (sec \div 86400), sec % 86400>>
RECURSIVE Fib(_)
Fib(n) == IF n < 2 THEN n ELSE Fib(n - 1) + Fib(n - 2)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Step(o) ==
    CASE o[1] = "advance" -> now' = Plus(now, o[2]) /\ UNCHANGED <<start, locked>> /\ res' = 0
      [] o[1] = "restart" -> start' = now /\ UNCHANGED <<now, locked>> /\ res' = 0
      \* a watch that started d before now
      [] o[1] = "since" -> start' = Minus(now, o[2]) /\ UNCHANGED <<now, locked>> /\ res' = o[2]
      [] o[1] = "elapsed" -> Get(Elapsed)
      [] o[1] = "counts" -> Get(<<Elapsed[1] * 1000 + (Elapsed[2] \div 1000000), Elapsed[1], Elapsed[1] \div 60, Elapsed[1] \div 3600, Elapsed[2] \div 1000>>)
      [] o[1] = "has" -> Get(B(NotLess(Elapsed, o[2])))
      [] o[1] = "watch" -> Get(Shown(Elapsed))
      [] o[1] = "shown" -> Get((IF o[2] = 1 THEN <<45>> ELSE <<>>) \o Shown(o[3]))
      [] o[1] = "seconds" -> Get((IF o[2] < 0 THEN <<45>> ELSE <<>>) \o Clock(IF o[2] < 0 THEN -o[2] ELSE o[2]))
      [] o[1] = "time" -> Get(Moment(o[2][1], o[2][2], o[2][3], o[2][4], o[2][5], o[2][6], o[3]))
      [] o[1] = "clamp" -> Get(IF o[2] < o[3] THEN o[3] ELSE IF o[2] > o[4] THEN o[4] ELSE o[2])
      [] o[1] = "sign" -> Get(IF o[2] < 0 THEN -1 ELSE IF o[2] > 0 THEN 1 ELSE 0)
      [] o[1] = "range" -> Get([i \in 1..(o[3] - o[2]) |-> o[2] + i - 1])
      [] o[1] = "count" -> Get([i \in 1..o[2] |-> i - 1])
      \* the i-th element is out of order with its neighbours
      [] o[1] = "moved" -> Get(B((o[3] > 1 /\ o[2][o[3] - 1] >= o[2][o[3]]) \/ (o[3] < Len(o[2]) /\ o[2][o[3]] >= o[2][o[3] + 1])))
      [] o[1] = "round" -> Get(IF o[2] < 0 THEN -((4 - o[2]) \div 8) ELSE (o[2] + 4) \div 8)   \* eighths to the nearest, halves away from zero
      [] o[1] = "angle" -> Get(o[2])                            \* in halves of the right angle, to radians and back
      [] o[1] = "recurse" -> Get(<<Fib(o[2]), Gcd(o[3], o[4])>>)
      \* a mutex that may be absent: 0 no, 1 optional, 2 wrapped, 3 fake
      [] o[1] = "lock" -> locked' = locked + (IF o[2] \in {1, 2} THEN 1 ELSE 0) /\ UNCHANGED <<now, start>> /\ res' = locked'
      [] o[1] = "unlock" -> locked' = locked - (IF o[2] \in {1, 2} THEN 1 ELSE 0) /\ UNCHANGED <<now, start>> /\ res' = locked'
Values == -2..2
Lists == UNION {[1..n -> 0..2] : n \in 1..4}
Spans == {<<0, 0>>, <<0, 1>>, <<0, 999999999>>, <<1, 500000000>>, <<60, 0>>}
Ops == CASE Part = 1 -> {<<"elapsed">>, <<"counts">>, <<"watch">>} \cup {<<"has", d>> : d \in Spans}
                        \cup {<<"restart">>} \cup {<<"since", d>> : d \in Spans} \cup (IF now[1] < L THEN {<<"advance", d>> : d \in {<<0, 999999999>>, <<1, 500000000>>, <<60, 0>>}} ELSE {})
         [] Part = 2 -> {<<"clamp", v, lo, hi>> : v \in Values, lo \in Values, hi \in 0..2} \cup {<<"sign", v>> : v \in Values}
                        \cup {<<"range", b, b + n>> : b \in Values, n \in 0..4} \cup {<<"count", n>> : n \in 0..5}
                        \cup UNION {{<<"moved", x, i>> : i \in DOMAIN x} : x \in Lists}
                        \cup {<<"round", v>> : v \in -100..100} \cup {<<"angle", v>> : v \in -9..9} \cup {<<"recurse", n, a, b>> : n \in 0..12, a \in {0, 12, 18, 7}, b \in {0, 8, 12}}
                        \cup (IF locked = 0 THEN {<<"lock", k>> : k \in 0..3} ELSE {<<"unlock", 1>>, <<"unlock", 2>>}) \cup {<<"unlock", 0>>, <<"unlock", 3>>}
         [] OTHER -> {<<"time", <<y, m, 1, 0, 0, 0>>, 0>> : y \in {1970, 1999, 2000, 2023, 2024, 2100}, m \in 0..11}
                     \cup {<<"time", <<y, m, d, h, 59, 59>>, z>> : y \in {1970, 2024}, m \in {0, 1, 2, 11}, d \in {1, 28, 29, 31}, h \in {0, 23}, z \in {-11, -1, 0, 3}}
                     \cup {<<"time", <<2023, 12, 30, 24, 60, 60>>, 1>>}
                     \cup {<<"shown", n, <<s, f>>>> : n \in 0..1, s \in {1, 59, 60, 3599, 3600, 86399, 86400, 359999}, f \in {0, 1, 100000000, 999999999}}
                     \cup {<<"shown", 0, <<0, f>>>> : f \in {0, 1, 999999999}} \cup {<<"seconds", s>> : s \in {-359999, -3600, -61, -1, 0, 1, 61, 3600, 359999}}
Inv == Elapsed[1] >= 0 /\ locked \in 0..1
ASSUME Days(1970, 0, 1) = 0 /\ Days(2024, 1, 29) = 19782 /\ Days(2023, 12, 1) = Days(2024, 0, 1)
=============================================================================
