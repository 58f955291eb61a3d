------------------------------- MODULE Options -------------------------------
(* C46. The options of a command line. Texts are sequences of character codes. The state: the options *)
(* given, {<<name, has a value, value, was asked for>>}. An argument "--name" starts an option, the   *)
(* argument after it that is not a name is its value; two values, a value without an option and two   *)
(* options of the same name are refused. What is asked for by name and type is the value converted to *)
(* the type, or the default if the option was not given; a text that is not a value of the type is    *)
(* reported. When the options are destroyed, those nobody asked for are reported.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Part    \* what is explored exhaustively: 1 shapes of arguments, 2 command lines, 3 texts of values
VARIABLES given, res
vars == <<given, res>>
View == given
Init == given = {} /\ res = <<>>
Reset == given' = {} /\ res' = <<>>
Digit == 48..57
Letter == (65..90) \cup (97..122)
Space == {32} \cup 9..13
IsName(t) == /\ Len(t) > 3 /\ t[1] = 45 /\ t[2] = 45 /\ t[3] \in Letter
             /\ \A i \in 4..Len(t) : t[i] \in Letter \cup Digit \cup {95}
NameOf(t) == SubSeq(t, 3, Len(t))
\* <<"ok", options>> or <<"thrown">>
RECURSIVE Parse(_, _, _, _)
Parse(args, i, opts, open) ==
    IF i > Len(args) THEN <<"ok", opts>>
    ELSE IF IsName(args[i])
         THEN IF \E o \in opts : o[1] = NameOf(args[i]) THEN <<"thrown">>
              ELSE Parse(args, i + 1, opts \cup {<<NameOf(args[i]), 0, <<>>, 0>>}, NameOf(args[i]))
         ELSE IF open = <<>> THEN <<"thrown">>
              ELSE Parse(args, i + 1, {IF o[1] = open THEN <<o[1], 1, args[i], 0>> ELSE o : o \in opts}, <<>>)
\* Texts in the order of strcmp
RECURSIVE Before(_, _, _)
Before(a, b, i) == IF i > Len(a) THEN i <= Len(b) ELSE IF i > Len(b) THEN FALSE
                   ELSE IF a[i] = b[i] THEN Before(a, b, i + 1) ELSE a[i] < b[i]
Sort(s) == SetToSortSeq(s, LAMBDA a, b : Before(a, b, 1))
Unused(g) == Sort({o[1] : o \in {o \in g : o[4] = 0}})
\* --- conversions
RECURSIVE SkipSpace(_, _)
SkipSpace(t, i) == IF i <= Len(t) /\ t[i] \in Space THEN SkipSpace(t, i + 1) ELSE i
RECURSIVE SkipDigits(_, _)
SkipDigits(t, i) == IF i <= Len(t) /\ t[i] \in Digit THEN SkipDigits(t, i + 1) ELSE i
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
Codes(t, i, j) == [k \in 1..(j - i) |-> t[i + k - 1] - 48]
\* The whole number at i: <<next position, negative, digits>>, or <<0>>
IntAt(t, i) == LET s == IF i <= Len(t) /\ t[i] \in {43, 45} THEN i + 1 ELSE i
                   e == SkipDigits(t, s)
                   d == Strip(Codes(t, s, e))
               IN IF e = s THEN <<0>> ELSE <<e, IF s > i /\ t[i] = 45 THEN 1 ELSE 0, d>>
\* Digits of equal length are compared as texts
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ Before(a, b, 1)))
M31 == <<2,1,4,7,4,8,3,6,4>>
M63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0>>
MaxOf(type) == CASE type = "int" -> M31 \o <<7>> [] type = "unsigned" -> <<4,2,9,4,9,6,7,2,9,5>>
                 [] type \in {"long", "llong"} -> M63 \o <<7>> [] type \in {"ulong", "ullong"} -> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
MinOf(type) == CASE type = "int" -> M31 \o <<8>> [] type \in {"long", "llong"} -> M63 \o <<8>>
Signed == {"int", "long", "llong"}
Unsigned == {"unsigned", "ulong", "ullong"}
InRange(n, type) == IF n[2] = 1 THEN IF type \in Signed THEN AtMost(n[3], MinOf(type)) ELSE FALSE ELSE AtMost(n[3], MaxOf(type))
ShowInt(n) == <<IF n[3] = <<>> THEN 0 ELSE n[2], n[3]>>
Bad == <<"thrown">>
Whole(t, type) == LET n == IntAt(t, SkipSpace(t, 1))
                  IN IF n[1] # Len(t) + 1 \/ ~InRange(n, type) THEN Bad ELSE <<"ok", ShowInt(n)>>
\* Up to six digits around the point, without an exponent; shown in thousandths
RECURSIVE Nat10(_, _, _)
Nat10(t, i, j) == IF j = i THEN 0 ELSE 10 * Nat10(t, i, j - 1) + t[j - 1] - 48
Real(t) == LET b == SkipSpace(t, 1)
               s == IF b <= Len(t) /\ t[b] \in {43, 45} THEN b + 1 ELSE b
               p == SkipDigits(t, s)
               q == IF p <= Len(t) /\ t[p] = 46 THEN SkipDigits(t, p + 1) ELSE p
               f == IF q > p THEN Nat10(t, p + 1, q) * 10 ^ (3 - (q - p - 1)) ELSE 0
               v == 1000 * Nat10(t, s, p) + f
           IN IF q # Len(t) + 1 \/ (p = s /\ q <= p + 1) THEN Bad ELSE <<"ok", IF s > b /\ t[b] = 45 THEN -v ELSE v>>
RECURSIVE Ints(_, _, _)
Ints(t, i, type) ==
    LET b == SkipSpace(t, i) IN
    IF b > Len(t) THEN <<"ok", <<>>>>
    ELSE LET n == IntAt(t, b) IN
         IF n[1] = 0 THEN Bad
         ELSE IF type = "bool" /\ n[3] \notin {<<>>, <<1>>} THEN Bad
         ELSE IF type = "bool" /\ n[2] = 1 /\ n[3] # <<>> THEN Bad
         ELSE IF type # "bool" /\ ~InRange(n, type) THEN Bad
         ELSE LET rest == Ints(t, n[1], type) IN IF rest = Bad THEN Bad ELSE <<"ok", <<ShowInt(n)>> \o rest[2]>>
RECURSIVE SkipWord(_, _)
SkipWord(t, i) == IF i <= Len(t) /\ t[i] \notin Space THEN SkipWord(t, i + 1) ELSE i
RECURSIVE Words(_, _)
Words(t, i) == LET b == SkipSpace(t, i) e == SkipWord(t, b) IN IF b > Len(t) THEN <<>> ELSE <<SubSeq(t, b, e - 1)>> \o Words(t, e)
Range1(s) == {s[i] : i \in 1..Len(s)}
Convert(t, type) ==
    CASE type = "bool" -> <<"ok", 1>>
      [] type \in Signed \cup Unsigned -> Whole(t, type)
      [] type \in {"float", "double", "ldouble"} -> Real(t)
      [] type = "string" -> <<"ok", t>>
      [] type = "ints" -> Ints(t, 1, "int")
      [] type = "bools" -> Ints(t, 1, "bool")
      [] type = "wordlist" -> <<"ok", Words(t, 1)>>
      [] type = "words" -> <<"ok", Sort(Range1(Words(t, 1)))>>
Ask(g, name, type) == IF \E o \in g : o[1] = name
                      THEN Convert((CHOOSE o \in g : o[1] = name)[3], type)
                      ELSE <<"default">>
Used(g, name) == {IF o[1] = name THEN <<o[1], o[2], o[3], 1>> ELSE o : o \in g}
Step(o) ==
    CASE o[1] = "parse" -> LET r == Parse(o[2], 1, {}, <<>>) IN
            given' = (IF r[1] = "ok" THEN r[2] ELSE {}) /\ res' = <<r[1], Unused(given)>>
      [] o[1] = "get" -> given' = Used(given, o[2]) /\ res' = Ask(given, o[2], o[3])
      [] o[1] = "done" -> given' = {} /\ res' = Unused(given)
      \* a command line of its own: the names of the options, the converted value
      [] o[1] = "only" -> LET r == Parse(<<o[2]>>, 1, {}, <<>>) IN
            given' = given /\ res' = IF r[1] = "ok" THEN <<"ok", Unused(r[2])>> ELSE r
      [] o[1] = "convert" -> LET r == Parse(<<<<45, 45, 97, 98>>, o[2]>>, 1, {}, <<>>) IN
            given' = given /\ res' = IF r[1] = "ok" THEN Ask(r[2], <<97, 98>>, o[3]) ELSE r
Types == Signed \cup Unsigned \cup {"bool", "float", "double", "ldouble", "string", "ints", "bools", "words", "wordlist"}
Many(s, n) == UNION {[1..k -> s] : k \in 0..n}
Ab == <<97, 98>>
Args == {<<45, 45>> \o Ab, <<45, 45, 98, 97>>, <<45, 45, 97>>, <<45, 45, 49, 97>>, <<45, 45, 97, 95, 49>>, Ab, <<>>, <<49>>}
\* The limits of the types and their neighbours
Inc(d) == LET RECURSIVE I(_) I(i) == IF i = 0 THEN <<49>> \o [k \in 1..Len(d) |-> 48]
                                     ELSE IF d[i] = 9 THEN I(i - 1)
                                     ELSE [k \in 1..Len(d) |-> 48 + (IF k < i THEN d[k] ELSE IF k = i THEN d[k] + 1 ELSE 0)] IN I(Len(d))
Ascii(d) == [k \in 1..Len(d) |-> 48 + d[k]]
LimitTexts == UNION {{s \o x : s \in {<<>>, <<45>>, <<43>>, <<48, 48>>, <<32, 45>>}, x \in {Ascii(MaxOf(t)), Inc(MaxOf(t)), Ascii(MaxOf(t)) \o <<48>>, <<49>> \o Ascii(MaxOf(t))}} : t \in Signed \cup Unsigned}
    \cup UNION {{s \o x : s \in {<<>>, <<45>>}, x \in {Ascii(MinOf(t)), Inc(MinOf(t))}} : t \in Signed}
IntTypes == Signed \cup Unsigned \cup {"ints", "string", "words"}
Ops == CASE Part = 1 -> {<<"only", t>> : t \in Many({45, 97, 90, 49, 95, 61}, 4) \cup {<<45, 45>> \o t : t \in Many({45, 97, 49, 95, 32}, 4)}}
         [] Part = 2 -> (IF given = {} THEN {<<"parse", a>> : a \in Many(Args, 3)} ELSE {})
                \cup {<<"get", n, t>> : n \in {Ab, <<98, 97>>, <<97>>}, t \in {"string", "int", "bool"}} \cup {<<"done">>}
         [] Part = 3 -> {<<"convert", t, y>> : t \in Many({53, 48, 45, 43, 46, 32, 113}, 3), y \in Types}
                \cup {<<"convert", t, y>> : t \in LimitTexts, y \in IntTypes}
Inv == \A o, p \in given : o[1] = p[1] => o = p
=============================================================================
