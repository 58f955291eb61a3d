------------------------------ MODULE Registry ------------------------------
(* C49. Things registered under names. Chain 0 holds numbers, 1 texts, 2-4 functions of three          *)
(* signatures: int(), std::string(int, const std::string&) and a move-only one. A chain is the sequence *)
(* of what is registered in it, the latest first: <<name, value>>; a name is the sequence of its codes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Part, L     \* what is explored; at most L registrations
VARIABLES ch, res
vars == <<ch, res>>
View == ch
Kinds == 0..4
Init == ch = [k \in Kinds |-> <<>>] /\ res = <<>>
Reset == ch' = [k \in Kinds |-> <<>>] /\ res' = <<>>
Get(r) == ch' = ch /\ res' = r

RECURSIVE At(_, _, _)
At(s, n, i) == IF i > Len(s) THEN 0 ELSE IF s[i][1] = n THEN i ELSE At(s, n, i + 1)
Find(k, n) == At(ch[k], n, 1)
Repeat(n, c) == [i \in 1..n |-> c]
Shown(k, v) == IF k = 1 THEN Repeat(v[1], v[2]) ELSE v
\* What function f of the signature makes of its arguments
Make(k, f, a) == IF k = 2 THEN <<f>> ELSE IF k = 3 THEN Repeat(a[1], 65 + f) \o a[2] ELSE <<a[1] + f>>
Step(o) ==
    CASE o[1] = "register" -> /\ ch' = [ch EXCEPT ![o[2]] = <<<<o[3], o[4]>>>> \o @]
                              /\ res' = Len(ch[o[2]]) + 1
      [] o[1] = "text" -> /\ ch' = [ch EXCEPT ![1] = <<<<o[2], <<o[3], o[4]>>>>>> \o @]
                          /\ res' = Len(ch[1]) + 1
      [] o[1] = "find" -> LET i == Find(o[2], o[3]) IN Get(IF i = 0 THEN <<>> ELSE <<i, Shown(o[2], ch[o[2]][i][2])>>)
      [] o[1] = "change" -> LET i == Find(0, o[2]) IN
                            /\ ch' = IF i = 0 THEN ch ELSE [ch EXCEPT ![0][i][2] = o[3]]
                            /\ res' = IF i = 0 THEN 0 ELSE 1
      [] o[1] = "list" -> Get([i \in 1..Len(ch[o[2]]) |-> <<ch[o[2]][i][1], Shown(o[2], ch[o[2]][i][2])>>])
      [] o[1] = "create" -> LET i == Find(o[2], o[3]) IN
                            Get(IF i = 0 THEN <<"unknown", o[3]>> ELSE <<"made", Make(o[2], ch[o[2]][i][2], o[4])>>)
      \* registered before main: by a link, by a factory and by a function
      [] o[1] = "static" -> Get(<<<<99, 98, 97>>, <<1, 2>>, <<103, 7>>>>)
Names == {<<>>, <<97>>, <<97, 98>>, <<65>>}
Args(k) == IF k = 2 THEN {<<>>} ELSE IF k = 3 THEN {<<0, <<>>>>, <<2, <<97>>>>} ELSE {<<5>>}
Count == Len(ch[0]) + Len(ch[1]) + Len(ch[2]) + Len(ch[3]) + Len(ch[4])
Finds(ks) == {<<"find", k, n>> : k \in ks, n \in Names} \cup {<<"list", k>> : k \in ks}
Numbers == {<<"register", 0, n, v>> : n \in Names, v \in 0..1}
Functions(ks) == {<<"register", k, n, f>> : k \in ks, n \in {<<>>, <<97>>, <<65>>}, f \in 0..1}
Creates(ks) == UNION {{<<"create", k, n, a>> : n \in Names, a \in Args(k)} : k \in ks}
Ops == CASE Part = 1 -> Finds({0}) \cup {<<"change", n, 2>> : n \in Names} \cup (IF Count < L THEN Numbers ELSE {})
         [] Part = 2 -> Creates({2, 3, 4}) \cup (IF Count < L THEN Functions({2, 3, 4}) ELSE {})
         [] Part = 3 -> Finds(0..2) \cup Creates({2, 3}) \cup {<<"static">>} \cup {<<"change", <<97>>, 2>>}
                        \cup (IF Count < L THEN {<<"register", 0, n, 1>> : n \in {<<97>>, <<98>>}} \cup {<<"register", k, n, 1>> : k \in {2, 3}, n \in {<<97>>, <<98>>}}
                                                \cup {<<"text", n, 2, 120>> : n \in {<<97>>, <<98>>}} ELSE {})
\* A thing is found exactly if something of that name is registered, and nothing registered later has the name
Inv == \A k \in Kinds : \A i \in 1..Len(ch[k]) :
          LET n == ch[k][i][1] IN Find(k, n) <= i /\ Find(k, n) > 0 /\ (Find(k, n) = i \/ ch[k][Find(k, n)][1] = n)
=============================================================================
