-------------------------------- MODULE Wire ---------------------------------
(* C51. The stored form: which bytes stand for a value of a type, in plain serialization, in version   *)
(* tolerant serialization (the names of the types, the prototypes of the structures, then the value     *)
(* with an index before every structure) and in a file (a header and blocks, each with its checksum).   *)
(* A type is a tuple that begins with its kind. A value of a number is its bytes, the least significant *)
(* first; of a string, a set, a vector, a structure and so on the sequence of the values in it.         *)
EXTENDS Crc, FiniteSets
CONSTANTS Part   \* what is explored exhaustively: 1 plain values, 2 names of types, 3 structures, 4 files
                 \* 5 damaged plain values, 6 damaged structures, 7 limits
VARIABLES none, res
vars == <<none, res>>
View == none
Init == none = 0 /\ res = <<>>
Reset == none' = 0 /\ res' = <<>>
Get(r) == none' = none /\ res' = r

Whole(n, s) == <<"int", n, s>>
I8 == Whole(1, "i") U8 == Whole(1, "u") I16 == Whole(2, "i") U16 == Whole(2, "u") I32 == Whole(4, "i") U32 == Whole(4, "u")
I64 == Whole(8, "i") U64 == Whole(8, "u") Char == Whole(1, "char")
Float == <<"float", 4>> Double == <<"float", 8>> Bool == <<"bool">>
String == <<"string", 1, "char">>
Vector(t) == <<"seq", "vector", t>>
Bits == <<"bits", "vector", 0>>                        \* vector<bool>
Packed(kind, n) == <<"bits", kind, n>>                 \* array<bool, n>, bitset<n>, bitmap<E, n>
Array(t, n) == <<"array", t, n>>
Pair(a, b) == <<"pair", a, b>>
Opt(kind, t) == <<"opt", kind, t>>
Variant(l) == <<"variant", l>>
Map(kind, a, b) == <<"map", kind, a, b>>
Enum(n, id) == <<"enum", n, id>>
Time(unit) == <<"time", unit>>
Atomic(t) == <<"atomic", t>>
Dec(e) == <<"decimal", e>>
\* A structure: the names and the types of its fields; reflected ones are in the prototypes; extra types
Struct(id, fields, reflected, extra) == <<"struct", id, fields, reflected, extra>>

Colour == Enum(1, "Colour")        \* sequential, five enumerators
Big == Enum(8, "Big") Small == Enum(1, "Small")
Point == Struct("Point", << <<"x", I32>>, <<"y", I16>> >>, 1, <<>>)
Named == Struct("Named", << <<"", String>>, <<"", Opt("optional", I32)>>, <<"", Bits>> >>, 0, <<>>)
Segment == Struct("Segment", << <<"a", Point>>, <<"on", Bool>>, <<"b_2", Point>>, <<"Note", String>>, <<"c", Colour>> >>, 1, <<>>)
Deep == Struct("Deep", << <<"v", Variant(<<I32, String, Point>>)>>, <<"m", Map("map", String, Vector(Point))>>, <<"p", Opt("shared", Point)>>,
                          <<"s", <<"seq", "set", I16>>>>, <<"ps", Array(Point, 2)>>, <<"t", Time("ns")>>, <<"d", Dec(4)>>, <<"u", U32>>,
                          <<"flags", Bits>>, <<"l", Vector(Segment)>> >>, 1, <<>>)
Flags == Struct("Flags", << <<"i", Atomic(I32)>>, <<"u", Opt("unique", String)>>, <<"e", Big>>, <<"f", Float>>, <<"seg", Segment>> >>, 1, <<>>)
Grown == Struct("Grown", << <<"x", I32>>, <<"p", Point>> >>, 1, <<I8, Vector(String), I32>>)
One == Struct("One", << <<"only", Opt("optional", Opt("optional", I16))>> >>, 1, <<>>)

Types == << I8, U8, I16, U16, I32, U32, I64, U64, Bool, Float, Double, Char,
            String, <<"string", 4, "wchar_t">>, <<"string", 2, "char16_t">>,
            Vector(I16), Vector(Double), Bits, Vector(String), Vector(Vector(U8)), Vector(Point), Vector(Opt("optional", Bool)),
            Array(I32, 3), Array(String, 2), Packed("array", 11), Packed("bitset", 9), Packed("bitset", 16), Packed("bitmap", 9),
            <<"seq", "deque", I16>>, <<"seq", "set", I16>>, <<"seq", "set", String>>, <<"seq", "vector_set", I16>>, <<"seq", "observable_set", I16>>,
            <<"seq", "unordered_set", I16>>, <<"seq", "ring", I16>>,
            Map("map", String, I16), Map("map", I16, Vector(Point)), Map("unordered_map", I16, String),
            Vector(Map("map", I16, Vector(I8))), Opt("optional", I32), Opt("optional", Point), Opt("shared", String), Opt("unique", U16),
            Variant(<<I32, String, Double>>), Variant(<<Bool>>), Colour, Big, Small, Dec(4), Dec(5),
            Time("ns"), Time("s"), Atomic(I32), Atomic(Bool), Point, Named, Segment, Deep, Flags, Grown, One >>
PointK == 55 SegmentK == 57 DeepK == 58 FlagsK == 59 GrownK == 60 OneK == 61
ASSUME Types[PointK] = Point /\ Types[SegmentK] = Segment /\ Types[DeepK] = Deep /\ Types[FlagsK] = Flags /\ Types[GrownK] = Grown /\ Types[OneK] = One /\ Len(Types) = 61

\* ---- numbers ----
U(n, k) == IF k = 1 THEN <<n % 256>> ELSE IF k = 2 THEN <<n % 256, (n \div 256) % 256>>
           ELSE <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
Size(n) == U(n, 8)
AllOnes == <<255, 255, 255, 255, 255, 255, 255, 255>>
RECURSIVE Times(_, _, _, _)      \* bytes by a number, from the byte i on, with a carry
Times(b, n, i, carry) == IF i > Len(b) THEN <<>> ELSE <<((b[i] * n) + carry) % 256>> \o Times(b, n, i + 1, ((b[i] * n) + carry) \div 256)
RECURSIVE Plus(_, _, _)
Plus(b, i, carry) == IF i > Len(b) THEN <<>> ELSE <<(b[i] + carry) % 256>> \o Plus(b, i + 1, (b[i] + carry) \div 256)
RECURSIVE Complement(_, _)
Complement(b, i) == IF i > Len(b) THEN <<>> ELSE <<255 - b[i]>> \o Complement(b, i + 1)
Minus(b) == Plus(Complement(b, 1), 1, 1)
Negative(b) == b[Len(b)] >= 128
Billion(b) == LET m(x) == Times(Times(Times(x, 1000, 1, 0), 1000, 1, 0), 1000, 1, 0) IN IF Negative(b) THEN Minus(m(Minus(b))) ELSE m(b)
\* Eight flags in a byte, the first one is the lowest bit
RECURSIVE Pack(_)
Bit(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
Pack(v) == IF v = <<>> THEN <<>>
           ELSE <<Bit(v, 1) + 2 * Bit(v, 2) + 4 * Bit(v, 3) + 8 * Bit(v, 4) + 16 * Bit(v, 5) + 32 * Bit(v, 6) + 64 * Bit(v, 7) + 128 * Bit(v, 8)>>
                \o Pack(SubSeq(v, 9, Len(v)))
\* The sign, then the exponent of e bits, then the mantissa
Decimal(e, v) == Plus(Times(v[3], 2 ^ (e + 1), 1, 0), 1, v[1] + (2 * v[2]))

\* ---- names of types ----
RECURSIVE Name(_)
RECURSIVE Names(_, _)
Names(l, i) == IF i > Len(l) THEN "" ELSE Name(l[i]) \o ", " \o Names(l, i + 1)
Number(k, n) == k \o ToString(8 * n) \o "_t"
Sequence(x) == "sequence<" \o x \o ">"
Name(t) ==
    CASE t[1] \in {"int", "enum"} -> Number("int", t[2])
      [] t[1] = "bool" -> "int8_t"
      [] t[1] = "float" -> Number("float", t[2])
      [] t[1] = "string" -> Sequence(Number("int", t[2]))
      [] t[1] = "seq" -> Sequence(Name(t[3]))
      [] t[1] = "bits" -> IF t[2] = "vector" THEN Sequence("int8_t") ELSE "array<int8_t, " \o ToString(t[3]) \o ">"
      [] t[1] = "array" -> "array<" \o Name(t[2]) \o ", " \o ToString(t[3]) \o ">"
      [] t[1] = "pair" -> "pair<" \o Name(t[2]) \o ", " \o Name(t[3]) \o ">"
      [] t[1] = "map" -> Sequence("pair<" \o Name(t[3]) \o ", " \o Name(t[4]) \o ">")
      [] t[1] = "opt" -> (IF t[2] = "optional" THEN "optional<" ELSE "pointer<") \o Name(t[3]) \o ">"
      [] t[1] = "variant" -> "variant<" \o Names(t[2], 1) \o ">"
      [] t[1] = "decimal" -> IF t[2] = 4 THEN "decimal" ELSE "decimal<int64_t, " \o ToString(t[2]) \o ">"
      [] t[1] = "time" -> "int64_t"
      [] t[1] = "atomic" -> Name(t[2])
      [] t[1] = "struct" -> "struct"
HasName(t) == ~(t[1] = "bits" /\ t[2] \in {"bitset", "bitmap"}) /\ ~(t[1] = "struct" /\ t[4] = 0)
Alphabet == "abcdefghijklmnopqrstuvwxyz0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ<>, "
Place(c) == CHOOSE i \in 1..Len(Alphabet) : SubSeq(Alphabet, i, i) = c
CodeAt(i) == IF i <= 26 THEN 96 + i ELSE IF i <= 36 THEN 21 + i ELSE IF i = 37 THEN 95 ELSE IF i <= 63 THEN 27 + i
             ELSE IF i = 64 THEN 60 ELSE IF i = 65 THEN 62 ELSE IF i = 66 THEN 44 ELSE 32
RECURSIVE Codes(_)
Codes(s) == IF Len(s) = 0 THEN <<>> ELSE <<CodeAt(Place(SubSeq(s, 1, 1)))>> \o Codes(SubSeq(s, 2, Len(s)))
ASSUME Codes("az09_AZ<>, ") = <<97, 122, 48, 57, 95, 65, 90, 60, 62, 44, 32>>

\* ---- the types a structure is made of, in the order they are met ----
Arithmetic(t) == t[1] \in {"int", "float", "bool"}
Numeric(t) == Arithmetic(t)
RECURSIVE Collect(_)
RECURSIVE CollectAll(_, _)
CollectAll(l, i) == IF i > Len(l) THEN <<>> ELSE Collect(l[i]) \o CollectAll(l, i + 1)
FieldTypes(t) == [i \in 1..Len(t[3]) |-> t[3][i][2]]
Collect(t) ==
    CASE t[1] \in {"int", "float", "bool", "enum", "decimal", "string", "bits"} -> <<t>>
      [] t[1] = "seq" -> IF t[2] = "vector" /\ Numeric(t[3]) THEN <<t>> ELSE <<t>> \o Collect(t[3])
      [] t[1] = "array" -> IF Numeric(t[2]) THEN <<t>> ELSE <<t>> \o Collect(t[2])
      [] t[1] = "pair" -> Collect(t[2]) \o Collect(t[3])
      [] t[1] = "map" -> <<t>> \o Collect(t[3]) \o Collect(t[4])
      [] t[1] = "opt" -> <<t>> \o Collect(t[3])
      [] t[1] = "variant" -> <<t>> \o CollectAll(t[2], 1)
      [] t[1] = "time" -> <<t, I64>>
      [] t[1] = "atomic" -> <<t>> \o Collect(t[2])
      [] t[1] = "struct" -> <<t>> \o CollectAll(FieldTypes(t), 1) \o t[5]
RECURSIVE Distinct(_, _)
Distinct(l, done) == IF l = <<>> THEN done ELSE Distinct(Tail(l), IF \E i \in 1..Len(done) : done[i] = Head(l) THEN done ELSE Append(done, Head(l)))
Structs(l) == SelectSeq(l, LAMBDA t : t[1] = "struct")
Others(l) == SelectSeq(l, LAMBDA t : t[1] # "struct")
Index(l, t) == (CHOOSE i \in 1..Len(l) : l[i] = t) - 1

\* ---- values ----
RECURSIVE Encode(_, _, _)
RECURSIVE EncodeAll(_, _, _, _)
RECURSIVE EncodeMap(_, _, _, _)
RECURSIVE EncodeEach(_, _, _, _)
RECURSIVE Flat(_, _)
Flat(l, i) == IF i > Len(l) THEN <<>> ELSE l[i] \o Flat(l, i + 1)
\* s: the reflected structures, their indices are written; <<>> in plain serialization
EncodeAll(t, v, i, s) == IF i > Len(v) THEN <<>> ELSE Encode(t, v[i], s) \o EncodeAll(t, v, i + 1, s)
EncodeMap(t, v, i, s) == IF i > Len(v) THEN <<>> ELSE Encode(t[3], v[i][1], s) \o Encode(t[4], v[i][2], s) \o EncodeMap(t, v, i + 1, s)
EncodeEach(l, v, i, s) == IF i > Len(l) THEN <<>> ELSE Encode(l[i], v[i], s) \o EncodeEach(l, v, i + 1, s)
Encode(t, v, s) ==
    CASE t[1] \in {"int", "float", "enum"} -> v
      [] t[1] = "bool" -> <<v>>
      [] t[1] = "string" -> Size(Len(v)) \o Flat(v, 1)
      [] t[1] = "bits" -> (IF t[2] = "vector" THEN Size(Len(v)) ELSE <<>>) \o Pack(v)
      [] t[1] = "seq" -> Size(Len(v)) \o EncodeAll(t[3], v, 1, s)
      [] t[1] = "array" -> EncodeAll(t[2], v, 1, s)
      [] t[1] = "pair" -> Encode(t[2], v[1], s) \o Encode(t[3], v[2], s)
      [] t[1] = "map" -> Size(Len(v)) \o EncodeMap(t, v, 1, s)
      [] t[1] = "opt" -> IF v = <<>> THEN <<0>> ELSE <<1>> \o Encode(t[3], v[1], s)
      [] t[1] = "variant" -> Size(v[1]) \o Encode(t[2][v[1] + 1], v[2], s)
      [] t[1] = "decimal" -> Decimal(t[2], v)
      [] t[1] = "time" -> IF t[2] = "s" THEN Billion(v) ELSE v
      [] t[1] = "atomic" -> Encode(t[2], v, s)
      [] t[1] = "struct" -> (IF s = <<>> \/ t[4] = 0 THEN <<>> ELSE U(Index(s, t), 2)) \o EncodeEach(FieldTypes(t), v, 1, s)
Text(s) == LET c == Codes(s) IN Size(Len(c)) \o c
RECURSIVE TypeTable(_, _)
TypeTable(l, i) == IF i > Len(l) THEN <<>> ELSE Text(Name(l[i])) \o TypeTable(l, i + 1)
RECURSIVE Fields(_, _, _)
Fields(f, types, i) == IF i > Len(f) THEN <<>>
                       ELSE Text(f[i][1]) \o (IF f[i][2][1] = "struct" THEN AllOnes ELSE Size(Index(types, f[i][2]))) \o Fields(f, types, i + 1)
RECURSIVE Prototypes(_, _, _)
Prototypes(structs, types, i) == IF i > Len(structs) THEN <<>> ELSE Size(Len(structs[i][3])) \o Fields(structs[i][3], types, 1) \o Prototypes(structs, types, i + 1)
MakePreamble(t) == LET l == Distinct(Collect(t), <<>>) o == Others(l) st == Structs(l)
                   IN <<Size(Len(o)) \o TypeTable(o, 1) \o Size(Len(st)) \o Prototypes(st, o, 1), st>>
\* Made once for every structure that is stored
Stored == <<PointK, SegmentK, DeepK, FlagsK, GrownK, OneK>>
ASSUME \A i \in 1..Len(Stored) : TLCSet(7100 + Stored[i], MakePreamble(Types[Stored[i]]))
Vts(k, v) == LET p == TLCGet(7100 + k) IN p[1] \o Encode(Types[k], v, p[2])
\* Blocks of n bytes, the last eight of each are the checksum of the others
RECURSIVE Blocks(_, _)
Blocks(b, n) == IF b = <<>> THEN <<>>
                ELSE LET m == IF Len(b) < n - 8 THEN Len(b) ELSE n - 8 IN SubSeq(b, 1, m) \o Checksum(DefaultSeed, SubSeq(b, 1, m)) \o Blocks(SubSeq(b, m + 1, Len(b)), n)

\* ---- reading any bytes: <<value, the next position>>, or Bad when there is no value at the position ----
Bad == <<>>
Other == <<0>>     \* a value of another structure, of which this one takes what it can
Raw(b, i, n) == IF i + n - 1 > Len(b) THEN Bad ELSE <<SubSeq(b, i, i + n - 1), i + n>>
\* How many are announced; -1: more than can be there
Count(x) == IF \E j \in 4..8 : x[j] # 0 THEN -1 ELSE x[1] + 256 * x[2] + 65536 * x[3]
Signed16(x) == x[1] + 256 * x[2] - (IF x[2] >= 128 THEN 65536 ELSE 0)
RECURSIVE LessFrom(_, _, _)
LessFrom(x, y, i) == IF i > Len(y) THEN FALSE ELSE IF i > Len(x) THEN TRUE ELSE IF x[i] # y[i] THEN x[i][1] < y[i][1] ELSE LessFrom(x, y, i + 1)
KeyLess(t, x, y) == IF t = I16 THEN Signed16(x) < Signed16(y) ELSE LessFrom(x, y, 1)
\* The first one of equal keys stays
Put(t, l, x, key(_)) == IF \E j \in 1..Len(l) : key(l[j]) = key(x) THEN l
                        ELSE SelectSeq(l, LAMBDA e : KeyLess(t, key(e), key(x))) \o <<x>> \o SelectSeq(l, LAMBDA e : KeyLess(t, key(x), key(e)))
Itself(e) == e
First(e) == e[1]
RECURSIVE Divide(_, _, _)        \* bytes by a number, from the byte i down, with a rest
Divide(b, n, rest) == IF b = <<>> THEN <<>> ELSE LET j == Len(b) x == rest * 256 + b[j] IN Append(Divide(SubSeq(b, 1, j - 1), n, x % n), x \div n)
ByBillion(b) == LET d(x) == Divide(Divide(Divide(x, 1000, 0), 1000, 0), 1000, 0) IN IF Negative(b) THEN Minus(d(Minus(b))) ELSE d(b)
ASSUME Divide(<<1, 2, 3>>, 7, 0) = LET x == (1 + 512 + 196608) \div 7 IN <<x % 256, (x \div 256) % 256, x \div 65536>>
MaxExponent(e) == IF e = 4 THEN 15 ELSE 19
Unpack(b, n) == [j \in 1..n |-> (b[((j - 1) \div 8) + 1] \div (2 ^ ((j - 1) % 8))) % 2]
\* lim: how many bytes a string can have, -1: any; s: as in Encode
RECURSIVE Decode(_, _, _, _, _)
RECURSIVE DecodeSome(_, _, _, _, _, _, _, _)
RECURSIVE DecodeEach(_, _, _, _, _, _)
RECURSIVE DecodePairs(_, _, _, _, _, _, _)
DecodeSome(t, n, b, i, lim, s, l, sorted) ==
    IF n = 0 THEN <<l, i>>
    ELSE LET r == Decode(t, b, i, lim, s)
         IN IF Len(r) < 2 THEN r ELSE DecodeSome(t, n - 1, b, r[2], lim, s, IF sorted THEN Put(t, l, r[1], Itself) ELSE Append(l, r[1]), sorted)
DecodePairs(t, n, b, i, lim, s, l) ==
    IF n = 0 THEN <<l, i>>
    ELSE LET k == Decode(t[3], b, i, lim, s)
         IN IF Len(k) < 2 THEN k
            ELSE LET v == Decode(t[4], b, k[2], lim, s)
                 IN IF Len(v) < 2 THEN v ELSE DecodePairs(t, n - 1, b, v[2], lim, s, Put(t[3], l, <<k[1], v[1]>>, First))
DecodeEach(f, b, i, lim, s, l) ==
    IF f = <<>> THEN <<l, i>>
    ELSE LET r == Decode(Head(f), b, i, lim, s) IN IF Len(r) < 2 THEN r ELSE DecodeEach(Tail(f), b, r[2], lim, s, Append(l, r[1]))
Decode(t, b, i, lim, s) ==
    LET raw(n) == Raw(b, i, n)
        flag == raw(1)
        size == raw(8)
        count == IF size = Bad THEN -1 ELSE Count(size[1])
    IN CASE t[1] \in {"int", "float"} -> raw(t[2])
         [] t[1] = "enum" -> LET r == raw(t[2]) IN IF r # Bad /\ t = Colour /\ r[1][1] > 4 THEN Bad ELSE r
         [] t[1] = "bool" -> IF flag = Bad THEN Bad ELSE <<IF flag[1] = <<0>> THEN 0 ELSE 1, flag[2]>>
         [] t[1] = "string" -> IF count < 0 \/ (lim >= 0 /\ count * t[2] > lim) \/ Raw(b, size[2], count * t[2]) = Bad THEN Bad
                               ELSE <<[j \in 1..count |-> SubSeq(b, size[2] + (j - 1) * t[2], size[2] + j * t[2] - 1)], size[2] + count * t[2]>>
         [] t[1] = "bits" -> IF t[2] = "vector"
                             THEN IF count < 0 THEN Bad ELSE LET r == Raw(b, size[2], (count + 7) \div 8) IN IF Len(r) < 2 THEN r ELSE <<Unpack(r[1], count), r[2]>>
                             ELSE LET r == raw((t[3] + 7) \div 8) IN IF Len(r) < 2 THEN r ELSE <<Unpack(r[1], t[3]), r[2]>>
         [] t[1] = "seq" -> IF count < 0 THEN Bad ELSE DecodeSome(t[3], count, b, size[2], lim, s, <<>>, t[2] \in {"set", "vector_set", "observable_set"})
         [] t[1] = "array" -> DecodeSome(t[2], t[3], b, i, lim, s, <<>>, FALSE)
         [] t[1] = "map" -> IF count < 0 THEN Bad ELSE DecodePairs(t, count, b, size[2], lim, s, <<>>)
         [] t[1] = "opt" -> IF flag = Bad THEN Bad ELSE IF flag[1] = <<0>> THEN <<<<>>, flag[2]>>
                            ELSE LET r == Decode(t[3], b, flag[2], lim, s) IN IF Len(r) < 2 THEN r ELSE <<<<r[1]>>, r[2]>>
         [] t[1] = "variant" -> IF count < 0 \/ count >= Len(t[2]) THEN Bad
                                ELSE LET r == Decode(t[2][count + 1], b, size[2], lim, s) IN IF Len(r) < 2 THEN r ELSE <<<<count, r[1]>>, r[2]>>
         [] t[1] = "decimal" -> LET r == raw(8)
                                IN IF Len(r) < 2 THEN r
                                   ELSE LET e == (r[1][1] \div 2) % (2 ^ t[2])
                                        IN IF e > MaxExponent(t[2]) THEN Bad ELSE <<<<r[1][1] % 2, e, Divide(r[1], 2 ^ (t[2] + 1), 0)>>, r[2]>>
         [] t[1] = "time" -> LET r == raw(8) IN IF r # Bad /\ t[2] = "s" THEN <<ByBillion(r[1]), r[2]>> ELSE r
         [] t[1] = "atomic" -> Decode(t[2], b, i, lim, s)
         [] t[1] = "struct" -> IF s = <<>> \/ t[4] = 0 THEN DecodeEach(FieldTypes(t), b, i, lim, s, <<>>)
                               ELSE LET r == raw(2)
                                    IN IF Len(r) < 2 THEN r
                                       ELSE IF r[1] = U(Index(s, t), 2) THEN DecodeEach(FieldTypes(t), b, r[2], lim, s, <<>>)
                                       ELSE IF r[1][2] = 0 /\ r[1][1] < Len(s) THEN Other ELSE Bad    \* the index of another structure, or of none
Outcome(r, from) == IF r = Bad THEN "refused" ELSE <<r[1], r[2] - from>>
DecodeVts(k, b) == LET p == TLCGet(7100 + k) n == Len(p[1])
                   IN IF Len(b) < n THEN "refused" ELSE Outcome(Decode(Types[k], b, n + 1, -1, p[2]), 1)

Step(o) ==
    CASE o[1] = "plain" -> Get(<<Encode(Types[o[2]], o[3], <<>>), o[3]>>)      \* written and read
      [] o[1] = "name" -> Get(Name(Types[o[2]]))
      [] o[1] = "vts" -> Get(<<Vts(o[2], o[3]), o[3]>>)
      [] o[1] = "hashed" -> Get(<<Blocks(Vts(o[2], o[4]), o[3]), o[4]>>)
      [] o[1] = "read" -> Get(Outcome(Decode(Types[o[2]], o[3], 1, -1, <<>>), 1))
      [] o[1] = "limited" -> Get(Outcome(Decode(Types[o[2]], o[4], 1, o[3], <<>>), 1))     \* read with a limit
      [] o[1] = "within" -> LET b == Encode(Types[o[2]], o[4], <<>>)                        \* written with a limit
                            IN Get(IF Decode(Types[o[2]], b, 1, o[3], <<>>) = Bad THEN "refused" ELSE b)
      [] o[1] = "put" -> Get(IF o[2] > 4 THEN "refused" ELSE <<o[2]>>)                      \* a value that can be no enumerator is written
      [] o[1] = "vread" -> Get(DecodeVts(o[2], o[3]))
      [] o[1] = "mangled" -> Get("survived")                                               \* read somehow or refused
      [] o[1] = "file" -> Get(<<Blocks(Size(Len(o[5])) \o o[5] \o Size(o[6]) \o Vts(o[2], o[4]), o[3]), o[4]>>)

\* ---- what is explored ----
Fill(n, first, rest, last) == [i \in 1..n |-> IF i = n THEN last ELSE IF i = 1 THEN first ELSE rest]
RECURSIVE Low(_)      \* some value
Low(t) == CASE t[1] \in {"int", "float", "enum"} -> Fill(t[2], 1, 0, IF t[2] = 1 THEN 1 ELSE 0)
            [] t[1] = "bool" -> 1
            [] t[1] = "string" -> << Fill(t[2], 97, 0, IF t[2] = 1 THEN 97 ELSE 0) >>
            [] t[1] = "bits" -> [i \in 1..(IF t[2] = "vector" THEN 3 ELSE t[3]) |-> i % 2]
            [] t[1] = "seq" -> <<Low(t[3])>>
            [] t[1] = "array" -> [i \in 1..t[3] |-> Low(t[2])]
            [] t[1] = "pair" -> <<Low(t[2]), Low(t[3])>>
            [] t[1] = "map" -> <<<<Low(t[3]), Low(t[4])>>>>
            [] t[1] = "opt" -> <<Low(t[3])>>
            [] t[1] = "variant" -> <<0, Low(t[2][1])>>
            [] t[1] = "decimal" -> <<1, 2, <<123, 0, 0, 0, 0, 0, 0, 0>>>>
            [] t[1] = "time" -> <<5, 6, 0, 0, 0, 0, 0, 0>>
            [] t[1] = "atomic" -> Low(t[2])
            [] t[1] = "struct" -> [i \in 1..Len(t[3]) |-> Low(t[3][i][2])]
High(t) == IF t[1] = "string" THEN << Fill(t[2], 97, 0, IF t[2] = 1 THEN 97 ELSE 0), Fill(t[2], 98, 3, IF t[2] = 1 THEN 98 ELSE 0) >>
           ELSE IF t[1] = "int" THEN Fill(t[2], 2, 3, IF t[2] = 1 THEN 77 ELSE 4) ELSE Low(t)    \* is greater than Low of it
Least(t) == IF t[1] = "string" THEN <<>> ELSE IF t = I16 THEN <<254, 255>> ELSE Low(t)           \* less than Low
RECURSIVE Values(_)
With(v, i, x) == [v EXCEPT ![i] = x]
Ordered(t) == t[2] \in {"set", "vector_set", "observable_set", "unordered_set"}
Values(t) ==
    CASE t = Colour -> {U(i, 1) : i \in 0..4}
      [] t[1] = "int" -> {Fill(t[2], 0, 0, 0), Fill(t[2], 255, 255, 255), Fill(t[2], 1, 2, 3), Fill(t[2], 0, 0, 128), Fill(t[2], 255, 255, 127)}
                         \cup {With(Fill(t[2], 0, 0, 0), i, 200) : i \in 1..t[2]} \cup (IF t[2] = 1 THEN {<<i>> : i \in 0..255} ELSE {})
      [] t = Big -> {Fill(8, 0, 0, 0), Fill(8, 255, 255, 127), Fill(8, 0, 0, 128)}
      [] t = Small -> {<<i>> : i \in {0, 200, 255}}
      [] t[1] = "float" -> {Fill(t[2], 0, 0, 0), Fill(t[2], 0, 0, 128), Fill(t[2], 1, 2, 63), Fill(t[2], 255, 127, 191), Fill(t[2], 1, 0, 0)} \cup {With(Fill(t[2], 0, 0, 64), i, 17) : i \in 1..t[2]}
      [] t[1] = "bool" -> {0, 1}
      [] t[1] = "string" -> LET c(a, b) == IF t[2] = 1 THEN <<a>> ELSE IF t[2] = 2 THEN <<a, b>> ELSE <<a, b, 1, 0>>
                            IN {<<>>, <<c(0, 0)>>, <<c(0, 0), c(1, 0)>>, [i \in 1..20 |-> c(i, 255 - i)], [i \in 1..300 |-> c(i % 256, i % 7)]} \cup {<<c(a, b), c(b, a), c(a, a)>> : a \in {0, 65, 255}, b \in {1, 128}}
      [] t[1] = "bits" -> IF t[2] = "vector" THEN {[i \in 1..n |-> 1] : n \in {0, 1, 7, 8, 9, 16, 17}} \cup {[i \in 1..9 |-> IF i = j THEN 1 ELSE 0] : j \in 1..9} \cup {[i \in 1..17 |-> IF i = j THEN 0 ELSE 1] : j \in 1..17}
                                                       \cup {[i \in 1..300 |-> IF i % 3 = 0 THEN 0 ELSE 1]}
                          ELSE {[i \in 1..t[3] |-> IF i = j THEN b ELSE 1 - b] : j \in 0..t[3], b \in {0, 1}}
      [] t[1] = "seq" -> {<<>>} \cup {<<x>> : x \in Values(t[3])}
                         \cup (IF t[2] = "unordered_set" THEN {} ELSE IF Ordered(t) THEN {<<Least(t[3]), Low(t[3])>>, <<Low(t[3]), High(t[3])>>, <<Least(t[3]), Low(t[3]), High(t[3])>>}
                               ELSE {<<x, High(t[3]), x>> : x \in Values(t[3])} \cup {[i \in 1..9 |-> IF i = 8 THEN High(t[3]) ELSE Low(t[3])]}
                                    \cup (IF t[2] = "vector" /\ t[3] = I16 THEN {[i \in 1..300 |-> <<i % 256, i % 5>>]} ELSE {}))
      [] t[1] = "array" -> UNION {{[j \in 1..t[3] |-> IF j = i THEN x ELSE Low(t[2])] : x \in Values(t[2])} : i \in 1..t[3]}
      [] t[1] = "pair" -> {<<x, Low(t[3])>> : x \in Values(t[2])} \cup {<<Low(t[2]), x>> : x \in Values(t[3])}
      [] t[1] = "map" -> {<<>>} \cup {<<<<x, Low(t[4])>>>> : x \in Values(t[3])} \cup {<<<<Low(t[3]), x>>>> : x \in Values(t[4])}
                         \cup (IF t[2] = "map" THEN {<<<<Least(t[3]), Low(t[4])>>, <<Low(t[3]), High(t[4])>>, <<High(t[3]), x>>>> : x \in Values(t[4])} ELSE {})
      [] t[1] = "opt" -> {<<>>} \cup {<<x>> : x \in Values(t[3])}
      [] t[1] = "variant" -> UNION {{<<i - 1, x>> : x \in Values(t[2][i])} : i \in 1..Len(t[2])}
      [] t[1] = "decimal" -> {<<0, e, m>> : e \in {0, 1, 7, 15} \cup (MaxExponent(t[2]) - 1)..MaxExponent(t[2]), m \in {Fill(8, 0, 0, 0), Fill(8, 255, 255, 0), Fill(8, 1, 2, 0), Fill(8, 0, 0, 1)}}
                             \cup {<<1, e, m>> : e \in {0, 2, 15}, m \in {Fill(8, 1, 0, 0), Fill(8, 77, 200, 0)}}
      [] t[1] = "time" -> {Fill(8, 0, 0, 0), Fill(8, 1, 0, 0), Fill(8, 255, 255, 255), <<0, 225, 245, 5, 0, 0, 0, 0>>, <<240, 255, 255, 255, 255, 255, 255, 255>>, <<255, 255, 255, 127, 1, 0, 0, 0>>, <<0, 54, 101, 196, 255, 255, 255, 255>>}
      [] t[1] = "atomic" -> Values(t[2])
      [] t[1] = "struct" -> UNION {{With(Low(t), i, x) : x \in Values(t[3][i][2])} : i \in 1..Len(t[3])}
TypeSet == 1..Len(Types)
StoredSet == {Stored[i] : i \in 1..Len(Stored)}
Few(k) == LET l == Low(Types[k]) IN {l} \cup {With(l, 1, x) : x \in Values(Types[k][3][1][2])}
Readable == {k \in TypeSet : ~(Types[k][1] \in {"seq", "map"} /\ Types[k][2] \in {"unordered_set", "unordered_map"})}
Bytes == {0, 1, 5, 128, 255}
Changed(b, from) == {SubSeq(b, 1, n) : n \in (from - 1)..Len(b)} \cup {With(b, j, x) : j \in from..Len(b), x \in Bytes}
                    \cup {With(b, j, (b[j] + 1) % 256) : j \in from..Len(b)} \cup {b \o <<1>>, b \o b, b \o Fill(9, 255, 0, 3)}
RECURSIVE Pick(_, _)
Pick(S, n) == IF n = 0 \/ S = {} THEN {} ELSE LET x == CHOOSE x \in S : TRUE IN {x} \cup Pick(S \ {x}, n - 1)
Simple(k) == IF k >= PointK THEN {Low(Types[k])} ELSE Pick({v \in Values(Types[k]) : Len(Encode(Types[k], v, <<>>)) <= 30}, 5)
ReadOps(k) == UNION {{<<"read", k, b>> : b \in Changed(Encode(Types[k], v, <<>>), 1)} : v \in Simple(k)}
              \cup (IF Types[k][1] \in {"decimal", "enum", "bits", "variant", "opt"}       \* every first byte
                    THEN UNION {{<<"read", k, With(Encode(Types[k], v, <<>>), 1, x)>> : x \in 0..255} : v \in Simple(k)} ELSE {})
ReadVts(k) == LET p == TLCGet(7100 + k) n == Len(p[1]) d == Encode(Types[k], Low(Types[k]), p[2])
                  all == {c \in Changed(d, 1) \cup {With(d, j, x) : j \in 1..Len(d), x \in {Len(p[2])}} : Decode(Types[k], c, 1, -1, p[2]) # Other}
              IN {<<"vread", k, p[1] \o c>> : c \in all}
\* Equal elements or keys, and elements that are out of order
Doubled(k) == LET t == Types[k] e(x) == Encode(t[3], x, <<>>) IN
    IF t[1] = "seq" /\ Ordered(t) THEN {Size(3) \o e(High(t[3])) \o e(Low(t[3])) \o e(High(t[3])), Size(2) \o e(Low(t[3])) \o e(Low(t[3]))}
    ELSE IF t[1] = "map" THEN UNION {{Size(3) \o e(High(t[3])) \o Encode(t[4], x, <<>>) \o e(Low(t[3])) \o Encode(t[4], y, <<>>) \o e(High(t[3])) \o Encode(t[4], y, <<>>)
                                      : x \in Values(t[4])} : y \in {Low(t[4])}}
    ELSE {}
LimitTypes == {13, 14, 15, 19, 24, 36, 42, 44, 56, 57}
Ops == CASE Part = 5 -> UNION {ReadOps(k) : k \in Readable} \cup UNION {{<<"read", k, b>> : b \in Doubled(k)} : k \in Readable}
         [] Part = 6 -> UNION {ReadVts(k) : k \in StoredSet} \cup UNION {{<<"vread", k, SubSeq(TLCGet(7100 + k)[1], 1, n)>> : n \in 0..(Len(TLCGet(7100 + k)[1]) - 1)} : k \in {PointK, OneK, GrownK}}
                        \cup UNION {{<<"mangled", k, b>> : b \in Changed(Vts(k, Low(Types[k])), 1)} : k \in {PointK, OneK}}
         [] Part = 7 -> {<<"put", x>> : x \in 0..255}
                        \cup UNION {{<<"within", k, n, v>> : n \in {0, 1, 2, 3, 4, 8, 20, 40, 80, 299, 300, 600, 1200}, v \in Values(Types[k])} : k \in LimitTypes}
                        \cup UNION {{<<"limited", k, n, Encode(Types[k], v, <<>>)>> : n \in {0, 1, 2, 3, 4, 8, 20, 40, 80, 299, 300, 600, 1200}, v \in Values(Types[k])} : k \in LimitTypes}
                        \cup UNION {{<<"limited", k, n, Fill(8, 0, 0, x) \o Fill(m, 65, 65, 65)>> : n \in {0, 3, 100}, m \in {0, 1, 8}, x \in {16, 31, 32, 63, 64, 127, 128, 192, 255}} : k \in {13, 14, 15}}
         [] Part = 1 -> UNION {{<<"plain", k, v>> : v \in Values(Types[k])} : k \in TypeSet}
         [] Part = 2 -> {<<"name", k>> : k \in {k \in TypeSet : HasName(Types[k])}}
         [] Part = 3 -> UNION {{<<"vts", k, v>> : v \in Values(Types[k])} : k \in StoredSet}
         [] Part = 4 -> UNION {{<<"hashed", k, n, Low(Types[k])>> : n \in {9, 10, 16, 17, 64, 65536}} : k \in StoredSet}
                        \cup UNION {{<<"file", k, n, v, f, ver>> : v \in Few(k), n \in {65536, 40}, f \in {<<>>, <<65, 0, 255>>}, ver \in {0, 1, 70000}} : k \in {PointK, OneK}}
                        \cup UNION {{<<"file", k, n, Low(Types[k]), [i \in 1..64 |-> i], 3>> : n \in {9, 100, 65536}} : k \in StoredSet}
Inv == TRUE
=============================================================================
