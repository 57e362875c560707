------------------------------ MODULE LhStatic -------------------------------
(* The block structure of -lh4- ... -lh7-: a block is a 16-bit count of      *)
(* codes, three code tables and the codes.  A reader is a bit position, the  *)
(* number of codes left in the block and the block's tables; each operator   *)
(* gives the reader after one step, with ok = FALSE when the data do not     *)
(* conform to the format.                                                    *)
EXTENDS Integers, Sequences, Bits, Canon

NC == 510            \* 256 literals and match lengths 3..256
NT == 19             \* alphabet of the table of code lengths
THRESHOLD == 3

DicBits(m) == CASE m = "lh4" -> 12 [] m = "lh5" -> 13 [] m = "lh6" -> 15 [] m = "lh7" -> 16
NP(m)      == CASE m \in {"lh4", "lh5"} -> 14 [] m = "lh6" -> 16 [] m = "lh7" -> 17
PBit(m)    == IF m \in {"lh4", "lh5"} THEN 4 ELSE 5

Zeros(n) == [i \in 1..n |-> 0]
PadTo(s, n) == s \o Zeros(n - Len(s))

Fail == [ok |-> FALSE, p |-> 0, tab |-> OneTable(0)]

RECURSIVE PtLens(_, _, _, _, _, _)
(* n explicit lengths from position p; after the special'th comes a 2-bit    *)
(* count of zeros; acc holds the lengths read so far                         *)
PtLens(s, p, n, nn, special, acc) ==
    IF Len(acc) >= n THEN [ok |-> Len(acc) <= nn, p |-> p, lens |-> acc]
    ELSE LET c   == Peek(s, p, 3)
             one == IF c = 7 THEN OnesFrom(s, p + 3, 13) ELSE 0
             len == c + one
             p1  == p + 3 + (IF c = 7 THEN one + 1 ELSE 0)
             a1  == Append(acc, len)
         IN  IF len > MaxLen THEN [ok |-> FALSE, p |-> p1, lens |-> acc]
             ELSE IF Len(a1) = special
                  THEN PtLens(s, p1 + 2, n, nn, special, a1 \o Zeros(Peek(s, p1, 2)))
                  ELSE PtLens(s, p1, n, nn, special, a1)

ReadPt(s, p, nn, nbit, special) ==
    LET n == Peek(s, p, nbit)
    IN  IF n = 0
        THEN LET c == Peek(s, p + nbit, nbit)
             IN  [ok |-> c < nn, p |-> p + 2 * nbit, tab |-> OneTable(c)]
        ELSE IF n > nn THEN Fail
        ELSE LET r == PtLens(s, p + nbit, n, nn, special, <<>>)
             IN  IF ~r.ok THEN Fail
                 ELSE LET t == MakeTable(r.lens) IN [ok |-> t.full, p |-> r.p, tab |-> t]

RECURSIVE CLens(_, _, _, _, _)
CLens(s, p, n, pt, acc) ==
    IF Len(acc) >= n THEN [ok |-> Len(acc) <= NC, p |-> p, lens |-> acc]
    ELSE LET c  == CodeOf(pt, Peek(s, p, 16))
             p1 == p + c.len
         IN  CASE c.sym = 0 -> CLens(s, p1, n, pt, Append(acc, 0))
               [] c.sym = 1 -> CLens(s, p1 + 4, n, pt, acc \o Zeros(Peek(s, p1, 4) + 3))
               [] c.sym = 2 -> CLens(s, p1 + 9, n, pt, acc \o Zeros(Peek(s, p1, 9) + 20))
               [] OTHER     -> CLens(s, p1, n, pt, Append(acc, c.sym - 2))

ReadC(s, p, pt) ==
    LET n == Peek(s, p, 9)
    IN  IF n = 0
        THEN LET c == Peek(s, p + 9, 9)
             IN  [ok |-> c < NC, p |-> p + 18, tab |-> OneTable(c)]
        ELSE IF n > NC THEN Fail
        ELSE LET r == CLens(s, p + 9, n, pt, <<>>)
             IN  IF ~r.ok THEN Fail
                 ELSE LET t == MakeTable(r.lens) IN [ok |-> t.full, p |-> r.p, tab |-> t]

NoBlock(p) == [p |-> p, n |-> 0, c |-> OneTable(0), d |-> OneTable(0)]

StaticStart == NoBlock(0)

(* the reader after the head of the block that r has reached *)
StaticHead(m, s, r) ==
    LET n  == Peek(s, r.p, 16)
        pt == ReadPt(s, r.p + 16, NT, 5, 3)
        c  == IF pt.ok THEN ReadC(s, pt.p, pt.tab) ELSE Fail
        d  == IF c.ok THEN ReadPt(s, c.p, NP(m), PBit(m), -1) ELSE Fail
    IN  [ok |-> n > 0 /\ d.ok /\ d.p <= BitLen(s),
         r  |-> [p |-> d.p, n |-> n, c |-> c.tab, d |-> d.tab]]

(* One code: a literal, or a match of len bytes that begins off bytes back   *)
StaticCode(m, s, r) ==
    LET c == CodeOf(r.c, Peek(s, r.p, 16))
        q == r.p + c.len
    IN  IF c.sym < 256
        THEN [ok |-> q <= BitLen(s), lit |-> TRUE, byte |-> c.sym, len |-> 1, off |-> 0,
              r |-> [r EXCEPT !.p = q, !.n = @ - 1]]
        ELSE LET d   == CodeOf(r.d, Peek(s, q, 16))
                 q1  == q + d.len
                 off == IF d.sym = 0 THEN 0 ELSE Pow2(d.sym - 1) + Peek(s, q1, d.sym - 1)
                 q2  == q1 + (IF d.sym = 0 THEN 0 ELSE d.sym - 1)
             IN  [ok |-> q2 <= BitLen(s) /\ off < Pow2(DicBits(m)), lit |-> FALSE, byte |-> 0,
                  len |-> c.sym - 256 + THRESHOLD, off |-> off + 1,
                  r |-> [r EXCEPT !.p = q2, !.n = @ - 1]]
=============================================================================
