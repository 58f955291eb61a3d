------------------------------- MODULE VtsTrace -------------------------------
(* C06. What reading a value of the old version of a structure as its new version gives.          *)
(*                                                                                                 *)
(* Types are <<"s", n>> (a scalar; n names it), <<"t", S>> (a structure), <<"v", T>> (vector),     *)
(* <<"a", T>> (array of two), <<"o", T>> (optional), <<"p", T>> (pointer), <<"m", K, T>> (map),    *)
(* <<"x", T, U>> (variant); values have the same tags. The schema gives for every family of        *)
(* structures the fields of the old and of the new versions: name, type, default value; and the    *)
(* renamings of fields.                                                                            *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Schema == JsonDeserialize(IOEnv.SCHEMA)
VARIABLE l

OldFields(f, S) == Schema[f].old[S]
NewFields(f, S) == Schema[f].new[S]
NewName(f, S, n) == LET r == Schema[f].ren[S] IN IF n \in DOMAIN r THEN r[n] ELSE n

\* The structure of the old version that became the structure S of the new version
Base(f, S) == Schema[f].base[S]
\* An old structure became two new ones
Split(f) == \E S \in DOMAIN Schema[f].base : Base(f, S) # S
RECURSIVE OldType(_, _)
OldType(f, t) == CASE t[1] = "s" -> t
                   [] t[1] = "t" -> <<"t", Base(f, t[2])>>
                   [] OTHER -> <<t[1]>> \o [i \in 1..Len(t) - 1 |-> OldType(f, t[i + 1])]

\* The position of the field of the old version that became the field n of the new structure S, 0: there is none
OldIndex(f, S, n) == LET of == OldFields(f, Base(f, S))
                         is == {i \in 1..Len(of) : NewName(f, S, of[i][1]) = n}
                     IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE

\* The default value of a new type
RECURSIVE Default(_, _)
Default(f, t) ==
    CASE t[1] = "s" -> <<"s", CASE t[2] = "f32" -> "00000000" [] t[2] = "f64" -> "0000000000000000" [] t[2] \in {"str", "set"} -> ""
                                [] t[2] = "uptr" -> "null" [] OTHER -> "0">>
      [] t[1] = "t" -> LET nf == NewFields(f, t[2]) IN <<"t">> \o [i \in 1..Len(nf) |-> nf[i][3]]
      [] t[1] = "a" -> <<"a", Default(f, t[2]), Default(f, t[2])>>
      [] t[1] = "x" -> <<"x", "0", Default(f, t[2])>>
      [] OTHER -> <<t[1]>>

Alternative(t, v) == IF v[2] = "0" THEN t[2] ELSE t[3]

\* Some structure in the value v of the new type t has a field whose type is another one in the new version
RECURSIVE Changed(_, _, _)
Changed(f, t, v) ==
    CASE t[1] = "s" -> FALSE
      [] t[1] = "t" -> LET of == OldFields(f, Base(f, t[2])) nf == NewFields(f, t[2]) IN
                       \E k \in 1..Len(nf) : LET i == OldIndex(f, t[2], nf[k][1]) IN
                          i > 0 /\ (of[i][2] # OldType(f, nf[k][2]) \/ Changed(f, nf[k][2], v[i + 1]))
      [] t[1] \in {"v", "a", "o", "p"} -> \E i \in 2..Len(v) : Changed(f, t[2], v[i])
      [] t[1] = "m" -> \E i \in 2..Len(v) : Changed(f, t[3], v[i][2])
      [] t[1] = "x" -> Changed(f, Alternative(t, v), v[3])

\* The value v of type t, in the new version; d is the value of the object that it is read into
RECURSIVE Map(_, _, _, _)
Map(f, t, v, d) ==
    CASE t[1] = "s" -> v
      [] t[1] = "t" -> LET nf == NewFields(f, t[2]) IN
                       <<"t">> \o [k \in 1..Len(nf) |-> LET i == OldIndex(f, t[2], nf[k][1]) IN
                                       IF i = 0 THEN d[k + 1] ELSE Map(f, nf[k][2], v[i + 1], d[k + 1])]
      [] t[1] = "a" -> <<"a", Map(f, t[2], v[2], d[2]), Map(f, t[2], v[3], d[3])>>
      [] t[1] \in {"v", "o", "p"} -> LET e == Default(f, t[2]) IN <<t[1]>> \o [i \in 1..Len(v) - 1 |-> Map(f, t[2], v[i + 1], e)]
      [] t[1] = "m" -> LET e == Default(f, t[3]) IN <<"m">> \o [i \in 1..Len(v) - 1 |-> <<v[i + 1][1], Map(f, t[3], v[i + 1][2], e)>>]
      [] t[1] = "x" -> LET u == Alternative(t, v) IN <<"x", v[2], Map(f, u, v[3], Default(f, u))>>

Top == <<"t", "A">>
Expected(f, v, d) == IF Changed(f, Top, v) THEN <<"error">> ELSE Map(f, Top, v, d)

\* The defaults of the generated structures agree with those of the specification
Says(r, e) == IF e = r THEN TRUE ELSE PrintT(<<"REJECT", l, ToString(r)>>) /\ FALSE
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET o == Trace[l].o r == Trace[l].r IN
            CASE o[1] = "reset" -> TRUE
              [] o[1] = "read" /\ Split(o[2]) /\ r = <<"error">> -> TRUE   \* it cannot be read as both of them, the reader says so
              [] o[1] = "read" -> Says(Expected(o[2], o[3], o[4]), r)
              [] OTHER -> Says(<<"nothing of the kind">>, r)
TSpec == TInit /\ [][TNext]_l
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
