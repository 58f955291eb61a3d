-------------------------------- MODULE Runner --------------------------------
(* C46, C47. The test console. A run has options and tests; it selects tests by a regular expression  *)
(* or by names, runs each of them and tells whether all of them have passed. The result: the exit     *)
(* code, the executions of the tests and what is printed.                                             *)
(* options: <<list, kind of the filter (0 none, 1 expression, 2 malformed), expression, names to run, *)
(*   loop (-1 none, -2 malformed), output (0 none, 1 all, 2 failed, 3 null, 4 unknown), timeout       *)
(*   (-2 malformed, -1 none, 0 far, 1 near, 2 at once)>>; a test: <<name, marks it prints, what it does>>.       *)
(* what: 0 passes, 1 fails, 2 fails the second time, 3 waits for the stop and passes, 4 waits for the *)
(* stop and fails. Names are sequences of character codes.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Part
VARIABLES x, res
vars == <<x, res>>
View == x
Init == x = 0 /\ res = <<>>
Reset == x' = 0 /\ res' = <<>>
\* --- regular expressions
RECURSIVE Ends(_, _, _), Star(_, _, _)
Ends(r, s, i) ==
    CASE r[1] = "c" -> IF i <= Len(s) /\ s[i] = r[2] THEN {i + 1} ELSE {}
      [] r[1] = "any" -> IF i <= Len(s) THEN {i + 1} ELSE {}
      [] r[1] = "in" -> IF i <= Len(s) /\ ((\E k \in 1..Len(r[3]) : r[3][k] = s[i]) # (r[2] = 1)) THEN {i + 1} ELSE {}
      [] r[1] = "cat" -> UNION {Ends(r[3], s, j) : j \in Ends(r[2], s, i)}
      [] r[1] = "alt" -> Ends(r[2], s, i) \cup Ends(r[3], s, i)
      [] r[1] = "opt" -> {i} \cup Ends(r[2], s, i)
      [] r[1] = "star" -> Star(r[2], s, {i})
      [] r[1] = "plus" -> Star(r[2], s, Ends(r[2], s, i))
Star(r, s, is) == LET n == is \cup UNION {Ends(r, s, i) : i \in is} IN IF n = is THEN is ELSE Star(r, s, n)
Match(r, s) == (Len(s) + 1) \in Ends(r, s, 1)
Suffix(s) == Len(s) >= 5 /\ SubSeq(s, Len(s) - 4, Len(s)) = <<95, 84, 101, 115, 116>>    \* .*_Test
\* --- the tests in the order of their names
RECURSIVE Before(_, _, _)
Before(a, b, i) == IF i > Len(a) THEN i <= Len(b) ELSE IF i > Len(b) THEN FALSE
                   ELSE IF a[i] = b[i] THEN Before(a, b, i + 1) ELSE a[i] < b[i]
SortedNames(s) == SetToSortSeq(s, LAMBDA a, b : Before(a, b, 1))
Names(t) == {t[k][1] : k \in 1..Len(t)}
Slot(t, n) == CHOOSE k \in 1..Len(t) : t[k][1] = n
\* --- one execution: marks are shown at once, when it fails, or never
Fails(w, k) == w \in {1, 4} \/ (w = 2 /\ k = 2)
Mark(slot, k, n) == [j \in 1..n |-> <<"mark", slot, k, j>>]
\* executions first.. last of the test, the k-th is next: <<failed, executions, printed>>
RECURSIVE Executions(_, _, _, _, _)
Executions(t, slot, k, n, out) ==
    IF k > n THEN <<FALSE, <<>>, <<>>>>
    ELSE LET m == Mark(slot, k, t[slot][2])
             e == <<slot, IF t[slot][3] \in {3, 4} THEN 1 ELSE 0>>
         IN IF Fails(t[slot][3], k)
            THEN <<TRUE, <<e>>, IF out = 3 THEN <<>> ELSE m>>
            ELSE LET r == Executions(t, slot, k + 1, n, out)
                 IN <<r[1], <<e>> \o r[2], (IF out = 1 THEN m ELSE <<>>) \o <<<<"passed">>>> \o r[3]>>
RECURSIVE RunAll(_, _, _, _)
RunAll(t, names, i, o) ==
    IF i > Len(names) THEN <<FALSE, <<>>, <<>>>>
    ELSE IF names[i] \notin Names(t) THEN <<TRUE, <<>>, <<>>>>
    ELSE IF o[5] = -2 \/ o[7] = -2 THEN <<TRUE, <<>>, <<>>>>
    ELSE LET slot == Slot(t, names[i])
             head == <<<<"name", slot>>>> \o (IF o[5] > 0 THEN <<<<"loops", o[5]>>>> ELSE <<>>)
         IN IF o[6] = 4 THEN <<TRUE, <<>>, head>>
            ELSE LET n == IF o[5] > 0 THEN o[5] ELSE 1
                     e == Executions(t, slot, 1, n, IF o[6] = 0 THEN 2 ELSE o[6])
                     r == IF e[1] THEN <<TRUE, <<>>, <<>>>> ELSE RunAll(t, names, i + 1, o)
                 IN <<r[1], e[2] \o r[2], head \o e[3] \o r[3]>>
Select(t, o) == SortedNames({n \in Names(t) : IF o[2] = 1 THEN Match(o[3], n) ELSE o[1] = 1 \/ Suffix(n)})
Numbered(t, names) == [k \in 1..Len(names) |-> <<"name", Slot(t, names[k])>>]
Result(o, t) ==
    IF Cardinality(Names(t)) # Len(t) THEN <<2, <<>>, <<<<"error">>>>>>
    ELSE IF o[1] = 1
         THEN IF o[2] = 2 /\ t # <<>> THEN <<2, <<>>, <<<<"error">>>>>>
              ELSE LET s == IF o[2] = 2 THEN <<>> ELSE Select(t, o) IN <<0, <<>>, Numbered(t, s) \o <<<<"total", Len(s)>>>>>>
    ELSE IF o[4] = <<>> /\ o[2] = 2 /\ t # <<>> THEN <<1, <<>>, <<<<"failed">>>>>>
    ELSE LET s == IF o[4] # <<>> THEN SortedNames({o[4][k] : k \in 1..Len(o[4])}) ELSE IF o[2] = 2 THEN <<>> ELSE Select(t, o)
             r == RunAll(t, s, 1, o)
         IN <<IF r[1] THEN 1 ELSE 0, r[2], <<<<"running", Len(s)>>>> \o r[3] \o <<<<IF r[1] THEN "failed" ELSE "allpassed">>>>>>
Step(o) == x' = x /\ res' = Result(o[2], o[3])
\* --- what is explored
Leaf == {<<"c", 97>>, <<"c", 98>>, <<"any">>}
Two == {<<f, p, q>> : f \in {"cat", "alt"}, p \in Leaf, q \in Leaf} \cup {<<f, p>> : f \in {"star", "plus", "opt"}, p \in Leaf}
       \cup {<<"in", n, s>> : n \in 0..1, s \in {<<97>>, <<97, 98>>}}
NotEmpty == {p \in Leaf \cup Two : ~Match(p, <<>>)}
Three == {<<f, p, q>> : f \in {"cat", "alt"}, p \in Leaf \cup Two, q \in Leaf \cup Two} \cup {<<"opt", p>> : p \in Two}
         \cup {<<f, p>> : f \in {"star", "plus"}, p \in NotEmpty}
Words == UNION {[1..n -> {97, 98}] : n \in 1..3} \cup {<<97, 95, 84, 101, 115, 116>>, <<98, 46, 97>>}
Plain == SetToSeq({<<w, 0, 0>> : w \in Words})
None == <<0, 0, <<"any">>, <<>>, -1, 0, -1>>
One == <<97, 95, 84, 101, 115, 116>>
Other == <<66, 95, 84, 101, 115, 116>>
Third == <<97, 95, 84, 101, 115, 116, 120>>    \* a_Testx
Tests == {<<>>, <<<<Third, 0, 0>>>>, <<<<One, 1, 0>>, <<One, 1, 0>>>>}
         \cup {<<<<One, m, w>>, <<Other, 2, v>>, <<Third, 1, 1>>>> : m \in 0..1, w \in 0..2, v \in 0..2}
Runs == {<<>>, <<One>>, <<One, Other>>, <<Third, One, One>>, <<<<97>>>>, <<One, <<97>>>>}
Opts == {<<l, k, <<"plus", <<"any">>>>, r, n, u, t>> : l \in 0..1, k \in 0..2, r \in Runs, n \in {-2, -1, 0, 1, 3}, u \in 0..4, t \in {-2, -1, 0}}
Usual == {o \in Opts : Cardinality({i \in {1, 2, 4, 5, 6, 7} : o[i] # None[i]}) <= 2}
Ops == CASE Part = 1 -> {<<"run", <<l, 1, r, <<>>, -1, 0, -1>>, Plain>> : l \in 0..1, r \in Leaf \cup Two}
                \cup {<<"run", <<0, 1, r, <<>>, -1, 0, -1>>, Plain>> : r \in Three} \cup {<<"run", <<l, 0, <<"any">>, <<>>, -1, 0, -1>>, Plain>> : l \in 0..1}
         [] Part = 2 -> {<<"run", o, t>> : o \in Usual, t \in Tests}
                \cup {<<"run", <<0, 0, <<"any">>, <<>>, n, u, t>>, <<<<One, 1, w>>, <<Other, 1, v>>>>>> : n \in {-1, 2}, u \in 0..3, t \in 1..2, w \in 3..4, v \in 3..4}
         [] Part = 3 -> {<<"run", o, t>> : o \in Opts, t \in Tests}
Inv == TRUE
=============================================================================
