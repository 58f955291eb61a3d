-------------------------------- MODULE Files --------------------------------
(* C50. A file of the file system and the streams over it. file: <<exists, bytes>>. at: the streams,   *)
(* <<kind, position>> with kind 0 closed, 1 for reading, 2 for updating; every open one owns a         *)
(* descriptor, all of them see the same bytes. An operation that fails throws and changes nothing      *)
(* (a write that was cut short: it has written a part).                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS H, L, Faults     \* streams, longest file, whether system calls fail
VARIABLES file, at, res
vars == <<file, at, res>>
View == <<file, at>>
Init == file = <<0, <<>>>> /\ at = [h \in 1..H |-> <<0, 0>>] /\ res = <<>>
Reset == file' = <<0, <<>>>> /\ at' = [h \in 1..H |-> <<0, 0>>] /\ res' = <<>>
Set(h, v) == SubSeq(at, 1, h - 1) \o <<v>> \o SubSeq(at, h + 1, H)
RECURSIVE CountIn(_, _)
CountIn(a, h) == IF h = 0 THEN 0 ELSE CountIn(a, h - 1) + IF a[h][1] > 0 THEN 1 ELSE 0
\* The observation: the result and the number of the open descriptors
To(f, a, r) == file' = f /\ at' = a /\ res' = <<r, CountIn(a, H)>>
Ok(v) == <<"ok", v>>
Bad == <<"thrown">>
Fail == To(file, at, Bad)
Zeros(n) == [i \in 1..n |-> 0]
Put(s, p, d) == LET t == IF Len(s) < p THEN s \o Zeros(p - Len(s)) ELSE s
                IN IF d = <<>> THEN s ELSE SubSeq(t, 1, p) \o d \o SubSeq(t, p + Len(d) + 1, Len(t))
Cut(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Zeros(n - Len(s))
Least(a, b) == IF a < b THEN a ELSE b
Kind(h) == at[h][1]
Pos(h) == at[h][2]
B == file[2]
RECURSIVE Reads(_, _, _, _)
Reads(d, p, l, i) ==    \* reading a stream in memory: the pieces and whether it has ended after each
    IF i > Len(l) THEN <<>>
    ELSE LET e == Least(p + l[i], Len(d)) IN <<<<SubSeq(d, p + 1, e), IF e = Len(d) THEN 1 ELSE 0>>>> \o Reads(d, e, l, i + 1)
RECURSIVE Flat(_, _)
Flat(l, i) == IF i > Len(l) THEN <<>> ELSE l[i] \o Flat(l, i + 1)
Step(o) ==
    CASE o[1] = "create" -> To(<<1, B>>, Set(o[2], <<2, 0>>), Ok(file[1]))
      [] o[1] = "open" -> IF file[1] = 0 THEN Fail ELSE To(file, Set(o[2], <<1, 0>>), Ok(0))
      [] o[1] = "close" -> To(file, Set(o[2], <<0, 0>>), Ok(0))
      [] o[1] = "assign" -> \* o[2] = std::move(o[3]), also to itself
            To(file, IF o[2] = o[3] THEN at ELSE [h \in 1..H |-> IF h = o[2] THEN at[o[3]] ELSE IF h = o[3] THEN <<0, 0>> ELSE at[h]], Ok(0))
      [] o[1] = "pass" ->   \* moved out and back
            To(file, at, Ok(0))
      [] o[1] = "swap" -> To(file, [h \in 1..H |-> IF h = o[2] THEN at[o[3]] ELSE IF h = o[3] THEN at[o[2]] ELSE at[h]], Ok(0))
      [] o[1] = "read" ->   \* through the stream itself or one that borrows its descriptor
            IF Kind(o[2]) = 0 THEN Fail
            ELSE LET e == IF Pos(o[2]) >= Len(B) THEN Pos(o[2]) ELSE Least(Pos(o[2]) + o[3], Len(B))
                 IN To(file, Set(o[2], <<Kind(o[2]), e>>), Ok(SubSeq(B, Pos(o[2]) + 1, e)))
      [] o[1] = "write" ->
            IF Kind(o[2]) # 2 THEN Fail
            ELSE To(<<1, Put(B, Pos(o[2]), o[3])>>, Set(o[2], <<2, Pos(o[2]) + Len(o[3])>>), Ok(0))
      [] o[1] = "short" ->  \* a half is written
            IF Kind(o[2]) # 2 THEN Fail
            ELSE LET d == SubSeq(o[3], 1, Len(o[3]) \div 2) IN To(<<1, Put(B, Pos(o[2]), d)>>, Set(o[2], <<2, Pos(o[2]) + Len(d)>>), Bad)
      [] o[1] = "seek" -> IF Kind(o[2]) = 0 THEN Fail ELSE To(file, Set(o[2], <<Kind(o[2]), o[3]>>), Ok(0))
      [] o[1] = "seekend" -> IF Kind(o[2]) = 0 THEN Fail ELSE To(file, Set(o[2], <<Kind(o[2]), Len(B) + o[3]>>), Ok(0))
      [] o[1] = "move" -> IF Kind(o[2]) = 0 \/ Pos(o[2]) + o[3] < 0 THEN Fail ELSE To(file, Set(o[2], <<Kind(o[2]), Pos(o[2]) + o[3]>>), Ok(0))
      [] o[1] = "length" -> IF Kind(o[2]) = 0 THEN Fail ELSE To(file, at, Ok(Len(B)))
      [] o[1] = "position" -> IF Kind(o[2]) = 0 THEN Fail ELSE To(file, at, Ok(Pos(o[2])))
      [] o[1] = "end" -> IF Kind(o[2]) = 0 THEN Fail ELSE To(file, at, Ok(IF Pos(o[2]) >= Len(B) THEN 1 ELSE 0))
      [] o[1] = "flush" -> IF Kind(o[2]) = 0 THEN Fail ELSE To(file, at, Ok(0))
      [] o[1] = "truncate" -> IF Kind(o[2]) # 2 THEN Fail ELSE To(<<1, Cut(B, Pos(o[2]))>>, at, Ok(0))
      [] o[1] = "fault" -> Fail   \* the system call number o[2] of the operation o[3] fails
      [] o[1] = "bytes" -> To(file, at, file)
      \* Streams in memory: o[2] read in pieces of the lengths o[3]; the pieces o[2] written, o[3] bytes fit
      [] o[1] = "memory" -> To(file, at, Reads(o[2], 0, o[3], 1))
      [] o[1] = "sink" -> To(file, at, LET d == Flat(o[2], 1) IN IF Len(d) <= o[3] THEN <<"ok", d, Len(d)>> ELSE Bad)
Data == {<<1>>, <<2, 1>>}
One(h) == {<<"create", h>>, <<"open", h>>, <<"close", h>>, <<"length", h>>, <<"position", h>>, <<"end", h>>, <<"flush", h>>, <<"truncate", h>>, <<"pass", h>>}
          \cup {<<"read", h, n, b>> : n \in 0..2, b \in 0..1} \cup {<<"write", h, d>> : d \in Data \cup {<<>>}} \cup {<<"short", h, <<2, 1>>>>}
          \cup {<<"seek", h, p>> : p \in 0..(L + 1)} \cup {<<"seekend", h, p>> : p \in 0..1} \cup {<<"move", h, p>> : p \in {-2, -1, 1}}
Failing(h) == (IF file[1] = 1 \/ Kind(h) > 0 THEN {<<"fault", 1, <<"open", h>>>>} ELSE {})
          \cup {<<"fault", 1, <<"create", h>>>>}
          \cup (IF Kind(h) = 0 THEN {} ELSE {<<"fault", 1, <<n, h>>>> : n \in {"length", "position", "end", "flush"}} \cup
                    {<<"fault", 2, <<"end", h>>>>, <<"fault", 1, <<"seek", h, 1>>>>, <<"fault", 1, <<"seekend", h, 0>>>>, <<"fault", 1, <<"move", h, 1>>>>, <<"fault", 1, <<"read", h, 1, 0>>>>})
          \cup (IF Kind(h) # 2 THEN {} ELSE {<<"fault", 1, <<"write", h, <<1>>>>>>, <<"fault", 1, <<"truncate", h>>>>, <<"fault", 2, <<"truncate", h>>>>})
Ops == UNION {One(h) : h \in 1..H} \cup {<<n, h, g>> : n \in {"assign", "swap"}, h \in 1..H, g \in 1..H} \cup {<<"bytes">>}
       \cup (IF Faults = 1 THEN UNION {Failing(h) : h \in 1..H} ELSE {})
       \cup (IF B = <<>> THEN {<<"memory", d, l>> : d \in {<<>>, <<1>>, <<3, 0, 2>>}, l \in UNION {[1..n -> 0..3] : n \in 0..3}}
                         \cup {<<"sink", l, n>> : l \in UNION {[1..k -> Data \cup {<<>>}] : k \in 0..3}, n \in 0..6} ELSE {})
Bound == Len(B) <= L /\ \A h \in 1..H : Pos(h) <= L + 1
Inv == file[1] = 0 => B = <<>> /\ \A h \in 1..H : Kind(h) = 0
=============================================================================
