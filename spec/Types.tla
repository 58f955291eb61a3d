-------------------------------- MODULE Types --------------------------------
(* C59. What version tolerant serialization derives from types alone: the list of the types that      *)
(* occur in a structure, their names and their hashes. A type is a term: <<"i32">>, <<"vector", T>>,  *)
(* <<"map", K, V>>, <<"array", T, n>>, <<"variant", <<T1, ...>>>>, <<"struct", id, members, extra>>   *)
(* where `extra` are the types of deleted members, etc. The terms are made up by tools/types_gen.py,  *)
(* the harness compiles them and prints what the library derives.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Crc
VARIABLES none, res
vars == <<none, res>>
View == none
Init == none = 0 /\ res = <<>>
Reset == none' = 0 /\ res' = <<>>

Bits == [bool |-> 8, char |-> 8, i8 |-> 8, u8 |-> 8, i16 |-> 16, u16 |-> 16, i32 |-> 32, u32 |-> 32, i64 |-> 64, u64 |-> 64, wchar |-> 32]
IsInt(t) == t[1] \in DOMAIN Bits
IsArithmetic(t) == IsInt(t) \/ t[1] \in {"float", "double"}
Range == {"vector", "deque", "list", "set", "multiset", "unordered_set", "vector_set"}
Maps == {"map", "unordered_map"}
Pointers == {"shared_ptr", "unique_ptr", "pointer"}

\* ---- the types that occur in a type, itself first, depth first
RECURSIVE Collect(_), CollectEach(_, _)
CollectEach(ts, i) == IF i > Len(ts) THEN <<>> ELSE Collect(ts[i]) \o CollectEach(ts, i + 1)
Collect(t) ==
    CASE t[1] = "struct" -> <<t>> \o CollectEach(t[3], 1) \o t[4]
      [] t[1] = "pair" -> Collect(t[2]) \o Collect(t[3])                \* a pair is not one of them
      [] t[1] \in {"string", "wstring"} -> <<t>>                        \* neither are the characters of a text,
      [] t[1] \in {"vector", "array"} /\ IsArithmetic(t[2]) -> <<t>>    \* nor the numbers of a plain array
      [] t[1] \in Range \cup Pointers \cup {"array", "optional", "atomic"} -> <<t>> \o Collect(t[2])
      [] t[1] \in Maps -> <<t>> \o Collect(t[2]) \o Collect(t[3])
      [] t[1] = "variant" -> <<t>> \o CollectEach(t[2], 1)
      [] t[1] = "time" -> <<t, <<"i64">>>>
      [] OTHER -> <<t>>
RECURSIVE Once(_, _, _)
Once(s, i, done) == IF i > Len(s) THEN done ELSE Once(s, i + 1, IF \E j \in 1..Len(done) : done[j] = s[i] THEN done ELSE Append(done, s[i]))
Unique(s) == Once(s, 1, <<>>)

\* ---- names, as codes of characters
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
Sized(word, n) == word \o Decimal(n) \o <<95, 116>>
Lt == <<60>>  Gt == <<62>>  Comma == <<44, 32>>
WInt == <<105, 110, 116>>
WFloat == <<102, 108, 111, 97, 116>>
WSequence == <<115, 101, 113, 117, 101, 110, 99, 101>>
WPair == <<112, 97, 105, 114>>
WArray == <<97, 114, 114, 97, 121>>
WOptional == <<111, 112, 116, 105, 111, 110, 97, 108>>
WVariant == <<118, 97, 114, 105, 97, 110, 116>>
WPointer == <<112, 111, 105, 110, 116, 101, 114>>
WStruct == <<115, 116, 114, 117, 99, 116>>
WDecimal == <<100, 101, 99, 105, 109, 97, 108>>
RECURSIVE Name(_), Names(_, _)
Names(ts, i) == IF i > Len(ts) THEN <<>> ELSE Name(ts[i]) \o Comma \o Names(ts, i + 1)
Name(t) ==
    CASE IsInt(t) -> Sized(WInt, Bits[t[1]])
      [] t[1] = "float" -> Sized(WFloat, 32)
      [] t[1] = "double" -> Sized(WFloat, 64)
      [] t[1] = "string" -> WSequence \o Lt \o Sized(WInt, 8) \o Gt
      [] t[1] = "wstring" -> WSequence \o Lt \o Sized(WInt, 32) \o Gt
      [] t[1] = "time" -> Sized(WInt, 64)
      [] t[1] = "enum" -> Sized(WInt, t[2])
      [] t[1] = "dec" -> IF t[2] = 4 THEN WDecimal ELSE WDecimal \o Lt \o Sized(WInt, 64) \o Comma \o Decimal(t[2]) \o Gt
      [] t[1] \in Range -> WSequence \o Lt \o Name(t[2]) \o Gt
      [] t[1] \in Maps -> WSequence \o Lt \o WPair \o Lt \o Name(t[2]) \o Comma \o Name(t[3]) \o Gt \o Gt
      [] t[1] = "pair" -> WPair \o Lt \o Name(t[2]) \o Comma \o Name(t[3]) \o Gt
      [] t[1] = "array" -> WArray \o Lt \o Name(t[2]) \o Comma \o Decimal(t[3]) \o Gt
      [] t[1] = "optional" -> WOptional \o Lt \o Name(t[2]) \o Gt
      [] t[1] = "atomic" -> Name(t[2])
      [] t[1] = "variant" -> WVariant \o Lt \o Names(t[2], 1) \o Gt
      [] t[1] \in Pointers -> WPointer \o Lt \o Name(t[2]) \o Gt
      [] t[1] = "struct" -> WStruct

\* ---- parts of a list
Only(s, Test(_)) == SelectSeq(s, Test)
Monostate == <<<<"monostate">>>>
OrEmpty(s) == IF s = <<>> THEN Monostate ELSE s
IsStruct(t) == t[1] = "struct"
IsNoStruct(t) == t[1] # "struct"

Get(r) == UNCHANGED none /\ res' = r
Step(o) ==
    CASE o[1] = "collect" -> Get(Unique(Collect(o[2])))
      [] o[1] = "together" -> Get(Unique(CollectEach(o[2], 1)))            \* from several structures
      [] o[1] = "split" -> LET u == Unique(Collect(o[2])) IN Get(<<OrEmpty(Only(u, IsStruct)), OrEmpty(Only(u, IsNoStruct))>>)
      [] o[1] = "name" -> Get(<<Name(o[2]), Checksum(Zero, Name(o[2]))>>)
      [] o[1] = "distinct" -> Get(Unique(o[2]))                            \* a tuple as a variant
      [] o[1] = "find" -> LET u == Unique(o[2]) i == IF \E k \in 1..Len(u) : u[k] = o[3] THEN CHOOSE k \in 1..Len(u) : u[k] = o[3] ELSE 0
                          IN Get(<<IF i > 0 THEN 1 ELSE 0, i - 1>>)
\* Nothing is lost or doubled, whatever the list is
Lemma(s) == LET u == Unique(s) IN {u[i] : i \in 1..Len(u)} = {s[i] : i \in 1..Len(s)} /\ Cardinality({u[i] : i \in 1..Len(u)}) = Len(u)
ASSUME \A n \in 0..4 : \A s \in [1..n -> 1..3] : Lemma(s)
Inv == none = 0
=============================================================================
