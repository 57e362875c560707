-------------------------------- MODULE Codec --------------------------------
(* The meaning of packed data: a decoder for every method as a state         *)
(* machine that takes one block head or one code at a time and writes the    *)
(* bytes it stands for.                                                      *)
(*                                                                           *)
(* A case is a member as seen at the interface of the implementation: its    *)
(* method, its packed bytes (in), the size the header announces, the content *)
(* that was packed or that unpacking gave (out), and the checksum reported.  *)
(* The machine follows the packed bytes and allows a step only when out has, *)
(* at the place reached, the bytes the step writes; so a case is accepted    *)
(* exactly when out is what the format says that the packed bytes mean.      *)
EXTENDS LhStatic, LhDynamic, Larc, Pm2, Crc16

Static == {"lh4", "lh5", "lh6", "lh7"}
Stored == {"lh0", "lz4", "pm0"}

Start(m) ==
    CASE m \in Static -> StaticStart
      [] m = "lh1" -> Lh1Start
      [] m = "lh2" -> Lh2Start
      [] m = "lh3" -> Lh3Start
      [] m = "lzs" -> LzsStart
      [] m = "lz5" -> Lz5Start
      [] m = "pm2" -> Pm2Start
      [] OTHER -> [p |-> 0, n |-> 1]

(* are new tables due? *)
Due(m, r, o) == IF m = "pm2" THEN Pm2Due(r, o) ELSE r.n = 0

HeadOf(m, s, r) ==
    CASE m \in Static -> StaticHead(m, s, r)
      [] m = "lh3" -> Lh3Head(s, r)
      [] m = "pm2" -> Pm2Head(s, r)

CodeAt(m, s, r, o) ==
    CASE m \in Static -> StaticCode(m, s, r)
      [] m = "lh1" -> Lh1Code(s, r)
      [] m = "lh2" -> Lh2Code(s, r, o)
      [] m = "lh3" -> Lh3Code(s, r)
      [] m = "lzs" -> LzsCode(s, r, o)
      [] m = "lz5" -> Lz5Code(s, r, o)
      [] m = "pm2" -> Pm2Code(s, r)

(* what a match finds before the first byte *)
Before(m, i) == IF m = "lz5" THEN Lz5Ring(i % 4096) ELSE 32

(* does out have, from place o, the len bytes from off places back? *)
Copied(m, out, o, len, off) ==
    IF o >= off
    THEN SubSeq(out, o + 1, o + len) = SubSeq(out, o + 1 - off, o + len - off)
    ELSE \A i \in 0..(len - 1) :
            out[o + i + 1] = IF o + i >= off THEN out[o + i - off + 1] ELSE Before(m, o + i - off)

(* the bytes of packed data that the position p has touched *)
Used(p) == (p + 7) \div 8
=============================================================================
