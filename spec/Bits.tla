-------------------------------- MODULE Bits --------------------------------
(* Bit strings held in byte sequences, most significant bit first.           *)
(* Positions are counted in bits from 0; past the end of the data every bit  *)
(* reads as 0 (users compare positions with BitLen to tell truncation).      *)
EXTENDS Integers, Sequences

Pow2T == <<
    1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048,
    4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608,
    16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
Pow2(i) == Pow2T[i + 1]

ByteAt(s, i) == IF i < Len(s) THEN s[i + 1] ELSE 0

BitLen(s) == 8 * Len(s)

(* n bits (n <= 16) of s from bit position p *)
Peek(s, p, n) ==
    LET b == p \div 8
        w == IF b + 3 <= Len(s) THEN s[b + 1] * 65536 + s[b + 2] * 256 + s[b + 3]
             ELSE ByteAt(s, b) * 65536 + ByteAt(s, b + 1) * 256 + ByteAt(s, b + 2)
    IN  (w \div Pow2(24 - (p % 8) - n)) % Pow2(n)

BitAt(s, p) == (ByteAt(s, p \div 8) \div Pow2(7 - (p % 8))) % 2

RECURSIVE OnesFrom(_, _, _)
(* number of consecutive 1 bits from position p, at most max *)
OnesFrom(s, p, max) ==
    IF max = 0 \/ BitAt(s, p) = 0 THEN 0 ELSE 1 + OnesFrom(s, p + 1, max - 1)
=============================================================================
