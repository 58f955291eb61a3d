----------------------------- MODULE Assertions -----------------------------
(* C58. Assertions of tests, and what an attribute tells about itself. A body of a test is a sequence *)
(* of assertions; its outcome is <<"passed">>, <<"failed", i, message>>: the i-th assertion threw a   *)
(* TestException, or <<"thrown", i, class>>: the i-th let through an exception of this class. Nothing *)
(* after that is evaluated, and what is evaluated is evaluated once (the number of evaluations is a    *)
(* part of the result). A message is what it has to contain, in this order.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Part, Off     \* what is explored; Off = 1: compiled without assertions
VARIABLES none, res
vars == <<none, res>>
View == none
Init == none = 0 /\ res = <<>>
Reset == none' = 0 /\ res' = <<>>

\* ---- exceptions: 0 none, 1 std::exception, 2 awl::Exception, 3 awl::GeneralException, 4 TestException, 5 std::logic_error, 6 std::out_of_range,
\* 7 std::runtime_error, 8 a class derived from TestException, 9 int
Parent == <<0, 1, 2, 3, 1, 5, 1, 4, 0>>
Classes == 1..9
RECURSIVE Is(_, _)
Is(x, e) == x # 0 /\ (x = e \/ Is(Parent[x], e))

\* ---- one assertion: <<outcome, message or class>>
\* <<"true" | "false", form, condition>>, <<"equal", form, kind, expected, actual>>, <<"throws", e, x>>, <<"fail", form>>
\* Forms: 0 a function with its own message, 1 a function with a given message, 2 a macro, 3 a macro with a message
Macro(f) == f \in {2, 3}
Given(f) == IF f \in {1, 3} THEN <<"given message">> ELSE <<>>
Text(f) == IF Macro(f) THEN <<"expression">> ELSE <<>>
Place(f) == IF Macro(f) THEN <<"place">> ELSE <<>>
Said(f) == <<"failed", Text(f) \o Given(f) \o Place(f)>>
Failed(f) == <<"failed", Given(f) \o Place(f)>>
Ok == <<"ok">>
Outcome(a) ==
    CASE a[1] = "throws" -> IF a[3] = 0 THEN <<"failed", <<"class">>>> ELSE IF Is(a[3], a[2]) THEN Ok ELSE <<"thrown", a[3]>>
      [] a[1] = "fail" -> Failed(a[2])
      [] Off = 1 /\ Macro(a[2]) -> <<"skipped">>
      [] a[1] = "true" -> IF a[3] = 1 THEN Ok ELSE Said(a[2])
      [] a[1] = "false" -> IF a[3] = 0 THEN Ok ELSE Said(a[2])
      [] a[1] = "equal" -> IF a[4] = a[5] THEN Ok
                           ELSE <<"failed", Text(a[2]) \o Given(a[2]) \o Place(a[2]) \o <<"expected", "actual">>>>
\* What an assertion evaluates: conditions, both values, or the function
Evaluates(a) == IF Outcome(a) = <<"skipped">> THEN 0 ELSE CASE a[1] = "equal" -> 2 [] a[1] = "fail" -> 0 [] OTHER -> 1
RECURSIVE Run(_, _, _)
Run(body, i, n) ==
    IF i > Len(body) THEN <<<<"passed">>, n>>
    ELSE LET r == Outcome(body[i]) m == n + Evaluates(body[i])
         IN CASE r[1] \in {"ok", "skipped"} -> Run(body, i + 1, m)
              [] r[1] = "failed" -> <<<<"failed", i, r[2]>>, m>>
              [] r[1] = "thrown" -> <<<<"thrown", i, r[2]>>, m>>

Get(r) == UNCHANGED none /\ res' = r
Step(o) ==
    CASE o[1] = "body" -> Get(Run(o[2], 1, 0))
      \* A value made of a text, and its text
      [] o[1] = "again" -> Get(o[3])
      [] o[1] = "quarters" -> Get(o[3])
      \* An attribute asked for: <<value or thrown, type, text of the default>>; the provider has a text (1) or not
      [] o[1] = "attribute" -> Get(<<IF o[2] = 0 THEN o[4] ELSE o[3], o[4]>>)
      [] o[1] = "malformed" -> Get(<<"failed", <<"name", "value">>>>)

\* ---- what is explored
Simple == UNION {{<<k, f, b>> : k \in {"true", "false"}, f \in 0..3, b \in 0..1},
                 {<<"throws", e, x>> : e \in Classes, x \in Classes \cup {0}}}
Fails == {<<"fail", f>> : f \in 0..3}
Equals == {<<"equal", f, k, e, a>> : f \in 0..3, k \in 1..5, e \in 0..3, a \in 0..3}
All == Simple \cup Fails \cup Equals
Short == {<<"true", 2, 1>>, <<"true", 0, 0>>, <<"false", 3, 0>>, <<"false", 2, 1>>, <<"equal", 2, 1, 1, 1>>, <<"equal", 3, 2, 1, 2>>, <<"throws", 1, 6>>, <<"throws", 4, 0>>, <<"throws", 6, 5>>, <<"fail", 2>>}
Digits == {<<48>>, <<49>>, <<45, 49>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>, <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>}
Large == {<<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>}
Huge == {<<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>}
Words == {<<>>, <<97>>, <<97, 32, 98>>, <<32>>, <<9, 10>>, <<45, 45, 97, 98>>, <<200, 1, 255>>}
Numbers == {<<>>, <<49>>, <<49, 32, 50>>, <<50, 32, 49, 32, 49>>, <<45, 55, 32, 48>>}
Lists == {<<>>, <<97>>, <<97, 98, 32, 99>>, <<98, 32, 99, 32, 100>>}
Texts(t) == CASE t = "int" -> Digits [] t \in {"long", "llong"} -> Digits \cup Large \cup Huge
              [] t = "unsigned" -> {<<48>>, <<49>>} \cup Huge
              [] t \in {"ulong", "ullong"} -> {<<48>>, <<49>>} \cup Large \cup Huge
              [] t = "string" -> Words [] t = "ints" -> Numbers [] t \in {"words", "set"} -> Lists
Types == {"int", "long", "llong", "unsigned", "ulong", "ullong", "string", "ints", "words", "set"}
\* more than the type can hold
Nines == [i \in 1..25 |-> 57]
Beyond(t) == CASE t = "int" -> {<<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 57>>} \cup Large \cup {Nines}
               [] t \in {"long", "llong"} -> {Nines, <<45>> \o Nines, <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>}
               [] t = "unsigned" -> {<<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>, Nines} \cup Large
               [] t \in {"ulong", "ullong"} -> {Nines}
               [] t = "ints" -> {<<49, 32>> \o Nines}
               [] OTHER -> {}
Bad(t) == Beyond(t) \cup CASE t = "string" -> {} [] t \in {"words", "set"} -> {} [] t \in {"unsigned", "ulong", "ullong"} -> {<<>>, <<120>>, <<45, 49>>, <<49, 120>>} [] OTHER -> {<<120>>, <<49, 120>>}
Ops == CASE Part = 1 -> {<<"body", <<a>>>> : a \in All}
         [] Part = 2 -> {<<"body", <<a, b>>>> : a, b \in Short} \cup {<<"body", <<a, b, c>>>> : a, b, c \in Short} \cup {<<"body", <<>>>>}
         [] Part = 3 -> UNION {{<<"again", t, x>> : x \in Texts(t)} : t \in Types}
                        \cup {<<"quarters", t, n>> : t \in {"float", "double", "ldouble"}, n \in {0, 1, -1, 2, 3, 4, -7, 1001, 40000, -4000003}}
                        \cup UNION {{<<"attribute", g, x, d, t>> : g \in 0..1, x \in Texts(t), d \in Texts(t)} : t \in Types}
                        \cup UNION {{<<"malformed", t, x>> : x \in Bad(t)} : t \in Types}
\* Whatever is asserted, a test that passed had only assertions that hold
Holds(a) == CASE a[1] = "true" -> a[3] = 1 [] a[1] = "false" -> a[3] = 0 [] a[1] = "equal" -> a[4] = a[5]
              [] a[1] = "throws" -> a[3] # 0 /\ Is(a[3], a[2]) [] a[1] = "fail" -> FALSE
ASSUME Off = 1 \/ \A a \in All : (Run(<<a>>, 1, 0)[1] = <<"passed">>) <=> Holds(a)
Inv == none = 0
=============================================================================
