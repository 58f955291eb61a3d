-------------------------------- MODULE Names --------------------------------
(* C48. Names are sequences of character codes. E(k) are the names of the enumeration k of the harness *)
(* as they are declared, F(k) the members of the reflected structure k: <<name, type>>. The state: the *)
(* bytes of a stream enumerators are written to and read from.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Part    \* what is explored exhaustively: 1 enumerations, 2 the stream, 3 lists of names
VARIABLES bytes, res
vars == <<bytes, res>>
View == bytes
Init == bytes = <<>> /\ res = <<>>
Reset == bytes' = <<>> /\ res' = <<>>
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>>
             ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE Many(_)
Many(n) == IF n = 0 THEN <<>> ELSE Append(Many(n - 1), <<110>> \o Digits(n - 1))
ASSUME TLCSet(1, Many(255))
Enums == 1..7
E(k) ==
    CASE k = 1 -> << <<65, 108, 111, 110, 101>> >>                                       \* Alone
      [] k = 2 -> << <<65>>, <<66, 95, 49>>, <<67, 67>> >>                               \* A,B_1 ,CC
      [] k = 3 -> << <<117, 112>>, <<85, 112>>, <<85, 80>>, <<100, 111, 119, 110>> >>    \* up, Up, UP, down
      [] k = 4 -> << <<68, 101, 98, 117, 103>>, <<84, 114, 97, 99, 101>>, <<73, 110, 102, 111>>,
                     <<87, 97, 114, 110, 105, 110, 103>>, <<69, 114, 114, 111, 114>> >>  \* Debug, Trace, Info, Warning, Error
      [] k = 5 -> << <<88>>, <<89>> >>                                                   \* X, Y
      [] k = 6 -> TLCGet(1)                                                              \* n0, ..., n254
      [] k = 7 -> << <<122, 95>>, <<122>>, <<122, 122>> >>                               \* z_ , z , zz
Title(k) == CASE k = 1 -> "Single" [] k = 2 -> "Dense" [] k = 3 -> "Mixed" [] k = 4 -> "LogLevel" [] k = 5 -> "Kind"
              [] k = 6 -> "Many" [] k = 7 -> "Lines"
Lower(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
First(l, ok(_)) == IF \E i \in 1..Len(l) : ok(l[i]) THEN CHOOSE i \in 1..Len(l) : ok(l[i]) /\ \A j \in 1..(i - 1) : ~ok(l[j]) ELSE 0
Bad == <<"thrown">>
Ok(v) == <<"ok", v>>
Same(a, b) == Len(a) = Len(b) /\ a = b
Exact(k, s) == LET i == First(E(k), LAMBDA t : Same(t, s)) IN IF i = 0 THEN Bad ELSE Ok(i - 1)
AnyCase(k, s) == LET i == First(E(k), LAMBDA t : Same(Lower(t), Lower(s))) IN IF i = 0 THEN Bad ELSE Ok(i - 1)
\* The conversions of the value v: to an index, from an index, to a name, two validations
Value(k, v) == IF v < Len(E(k)) THEN <<Ok(v), Ok(v), Ok(E(k)[v + 1]), Ok(0), Ok(0)>> ELSE <<Bad, Bad, Bad, Bad, Bad>>
\* --- lists of names as the preprocessor makes them: names separated with commas, spaces around
RECURSIVE Join(_, _, _)
Join(l, s, i) == IF i > Len(l) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE s[i]) \o l[i] \o Join(l, s, i + 1)
\* --- structures: the types are numbered in Types
Types == << "int", "string", "double", "ints" >>
F(k) == CASE k = 1 -> << >>
          [] k = 2 -> << <<<<97>>, 0>> >>                                                \* int a
          [] k = 3 -> << <<<<97>>, 0>>, <<<<98, 98>>, 1>>, <<<<99, 95, 99>>, 2>>, <<<<100>>, 3>> >>  \* int a, string bb, double c_c, ints d
          [] k = 4 -> << <<<<110, 97, 109, 101>>, 1>>, <<<<105, 110>>, -1>>, <<<<105, 110, 50>>, -1>>, <<<<120>>, 0>> >>  \* string name, structures in and in2, int x
Get(r) == bytes' = bytes /\ res' = r
Step(o) ==
    CASE o[1] = "enum" -> Get(<<Title(o[2]), Len(E(o[2])), E(o[2])>>)
      [] o[1] = "value" -> Get(Value(o[2], o[3]))
      [] o[1] = "name" -> Get(<<Exact(o[2], o[3]), AnyCase(o[2], o[3])>>)
      [] o[1] = "write" -> IF o[3] < Len(E(o[2])) THEN bytes' = Append(bytes, o[3]) /\ res' = Ok(0) ELSE Get(Bad)
      [] o[1] = "raw" -> bytes' = Append(bytes, o[2]) /\ res' = <<>>
      [] o[1] = "read" ->    \* without and with validation; a wrong byte is consumed
            IF bytes = <<>> THEN Get(Bad)
            ELSE bytes' = Tail(bytes) /\ res' = IF o[3] = 1 \/ Head(bytes) < Len(E(o[2])) THEN Ok(Head(bytes)) ELSE Bad
      [] o[1] = "plain" ->   \* an enumeration that is not sequential: any value of two bytes
            bytes' = bytes \o <<o[2] % 256, o[2] \div 256>> /\ res' = Ok(0)
      [] o[1] = "unplain" ->
            IF Len(bytes) < 2 THEN bytes' = <<>> /\ res' = Bad ELSE bytes' = SubSeq(bytes, 3, Len(bytes)) /\ res' = Ok(bytes[1] + 256 * bytes[2])
      [] o[1] = "bytes" -> Get(bytes)
      \* A list of names, its text is o[2] joined with the separators o[3]
      [] o[1] = "list" -> Get(<<Len(o[2]), o[2], Join(o[2], o[3], 1)>>)
      [] o[1] = "find" -> Get(First(o[2], LAMBDA t : Same(t, o[4])) - 1)
      [] o[1] = "members" -> Get(F(o[2]))
      [] o[1] = "retype" ->  \* a copy of the description with the type of a member changed
            LET f == F(o[2]) n == f[o[3] + 1] IN Get(<<[i \in 1..Len(f) |-> IF i = o[3] + 1 THEN <<n[1], o[4]>> ELSE f[i]], IF n[2] = o[4] THEN 1 ELSE 0>>)
Separators == {<<44>>, <<44, 32>>, <<32, 44>>, <<32, 44, 32>>}
Names3 == {<<97>>, <<98, 98>>, <<99, 95, 49>>}
Lists == {<<>>} \cup UNION {[1..n -> Names3] : n \in 1..3}
Asked(k) == {E(k)[i] : i \in 1..Len(E(k))} \cup {Lower(E(k)[i]) : i \in 1..Len(E(k))}
            \cup {<<>>, <<65>>, <<97>>, <<100, 79, 87, 110>>, <<85, 112, 32>>, <<117>>, <<122, 32>>} \cup {Append(E(k)[1], 44), Tail(E(k)[1])}
Ops == CASE Part = 1 -> {<<"enum", k>> : k \in Enums} \cup {<<"value", k, v>> : k \in Enums, v \in 0..255}
                        \cup UNION {{<<"name", k, s>> : s \in Asked(k)} : k \in Enums}
                        \cup {<<"members", k>> : k \in 1..4}
                        \cup UNION {{<<"retype", k, i - 1, t>> : i \in {i \in 1..Len(F(k)) : F(k)[i][2] >= 0}, t \in 0..3} : k \in 1..4}
         [] Part = 2 -> IF Len(bytes) < 3
                        THEN {<<"write", k, v>> : k \in {1, 2}, v \in {0, 1, 2, 3}} \cup {<<"raw", b>> : b \in {0, 1, 3, 255}}
                             \cup {<<"read", k, s>> : k \in {1, 2}, s \in 0..1} \cup {<<"plain", 511>>, <<"unplain">>, <<"bytes">>}
                        ELSE {<<"read", k, s>> : k \in {1, 2}, s \in 0..1} \cup {<<"unplain">>, <<"bytes">>, <<"write", 2, 3>>}
         [] Part = 3 -> UNION {{<<"list", l, s>> : s \in [1..Len(l) -> Separators]} : l \in Lists}
                        \cup UNION {{<<"find", l, [i \in 1..Len(l) |-> <<44, 32>>], t>> : t \in Names3 \cup {<<98>>, <<>>}} : l \in Lists}
Inv == Len(bytes) <= 4 \/ Part # 2
\* The conversions are inverse to one another, the names of an enumeration differ
ASSUME \A k \in Enums : \A v \in 0..(Len(E(k)) - 1) : Exact(k, E(k)[v + 1]) = Ok(v)
=============================================================================
