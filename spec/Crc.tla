--------------------------------- MODULE Crc ---------------------------------
(* The checksum CRC-64/Jones from its definition: the register is shifted bit by bit, the polynomial   *)
(* is 0xad93d23594c935a9 with reflected input and output. A value of 64 bits is a sequence of eight    *)
(* bytes, the least significant first.                                                                 *)
EXTENDS Integers, Sequences, Bitwise, TLC
LOCAL Slot == 7164
Poly == << 149, 172, 147, 41, 172, 75, 201, 181 >>     \* 95 ac 93 29 ac 4b c9 b5: the reflection, most significant first
ReflectByte(b) == 128 * (b % 2) + 64 * ((b \div 2) % 2) + 32 * ((b \div 4) % 2) + 16 * ((b \div 8) % 2)
                  + 8 * ((b \div 16) % 2) + 4 * ((b \div 32) % 2) + 2 * ((b \div 64) % 2) + (b \div 128)
Jones == << 173, 147, 210, 53, 148, 201, 53, 169 >>    \* ad 93 d2 35 94 c9 35 a9
ASSUME \A i \in 1..8 : Poly[i] = ReflectByte(Jones[9 - i])
P(i) == Poly[9 - i]
Half(c, i) == (c[i] \div 2) + IF i < 8 THEN 128 * (c[i + 1] % 2) ELSE 0
\* One bit
Shift(c) == IF c[1] % 2 = 1
            THEN << Half(c, 1) ^^ P(1), Half(c, 2) ^^ P(2), Half(c, 3) ^^ P(3), Half(c, 4) ^^ P(4),
                    Half(c, 5) ^^ P(5), Half(c, 6) ^^ P(6), Half(c, 7) ^^ P(7), Half(c, 8) ^^ P(8) >>
            ELSE << Half(c, 1), Half(c, 2), Half(c, 3), Half(c, 4), Half(c, 5), Half(c, 6), Half(c, 7), Half(c, 8) >>
RECURSIVE Shifts(_, _)
Shifts(c, n) == IF n = 0 THEN c ELSE Shifts(Shift(c), n - 1)
RECURSIVE MakeTable(_)
MakeTable(n) == IF n = 0 THEN <<>> ELSE Append(MakeTable(n - 1), Shifts(<< n - 1, 0, 0, 0, 0, 0, 0, 0 >>, 8))
ASSUME TLCSet(Slot, MakeTable(256))
\* Eight shifts of a register are those of its lowest byte over the rest of it
CrcByte(c, b) == LET t == TLCGet(Slot)[(c[1] ^^ b) + 1]
                 IN << c[2] ^^ t[1], c[3] ^^ t[2], c[4] ^^ t[3], c[5] ^^ t[4], c[6] ^^ t[5], c[7] ^^ t[6], c[8] ^^ t[7], t[8] >>
RECURSIVE CrcFrom(_, _, _)
CrcFrom(c, data, i) == IF i > Len(data) THEN c ELSE CrcFrom(CrcByte(c, data[i]), data, i + 1)
Turned(c) == << c[8], c[7], c[6], c[5], c[4], c[3], c[2], c[1] >>
\* The eight bytes of the checksum, the most significant first
Checksum(seed, data) == Turned(CrcFrom(seed, data, 1))
DefaultSeed == << 127, 0, 0, 0, 0, 0, 0, 0 >>
Zero == << 0, 0, 0, 0, 0, 0, 0, 0 >>
\* e9c6d914c4b8d9ca is the check value of "123456789"
ASSUME Checksum(Zero, << 49, 50, 51, 52, 53, 54, 55, 56, 57 >>) = << 233, 198, 217, 20, 196, 184, 217, 202 >>
\* The table way and the bit by bit way
ASSUME \A b \in {0, 1, 200} : CrcByte(<< 7, 1, 2, 3, 4, 5, 6, 255 >>, b) = Shifts(<< 7 ^^ b, 1, 2, 3, 4, 5, 6, 255 >>, 8)
=============================================================================
