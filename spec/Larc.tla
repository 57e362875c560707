-------------------------------- MODULE Larc ---------------------------------
(* -lzs- and -lz5-: flags, literals and matches that name a place in the     *)
(* ring of the last 2 or 4 KB by its address; the first byte has address 0.  *)
EXTENDS Integers, Sequences, Bits, LhDynamic

(* how many bytes before o the address a was last written *)
Back(o, a, size) == ((o - a - 1) % size) + 1

LzsStart == [p |-> 0, n |-> 1]

LzsCode(s, r, o) ==
    IF BitAt(s, r.p) = 1
    THEN Lit(r.p + 9 <= BitLen(s), Peek(s, r.p + 1, 8), [r EXCEPT !.p = @ + 9])
    ELSE Match(r.p + 16 <= BitLen(s), Peek(s, r.p + 12, 4) + 2,
               Back(o, (Peek(s, r.p + 1, 11) + 17) % 2048, 2048), [r EXCEPT !.p = @ + 16])

(* positions of -lz5- are whole bytes; f holds the flags that are left *)
Lz5Start == [p |-> 0, n |-> 1, f |-> <<>>]

Lz5Code(s, r, o) ==
    LET b  == r.p \div 8
        f  == IF r.f # <<>> THEN r.f
              ELSE FoldLeft(LAMBDA a, i : Append(a, (ByteAt(s, b) \div Pow2(i)) % 2), <<>>,
                            <<0, 1, 2, 3, 4, 5, 6, 7>>)
        d  == IF r.f # <<>> THEN b ELSE b + 1
    IN  IF f[1] = 1
        THEN Lit(d + 1 <= Len(s), ByteAt(s, d), [p |-> 8 * (d + 1), n |-> 1, f |-> Tail(f)])
        ELSE Match(d + 2 <= Len(s), (ByteAt(s, d + 1) % 16) + 3,
                   Back(o, (ByteAt(s, d) + 256 * (ByteAt(s, d + 1) \div 16) + 18) % 4096, 4096),
                   [p |-> 8 * (d + 2), n |-> 1, f |-> Tail(f)])

(* what the ring of -lz5- holds at address a before anything is written *)
Lz5Ring(a) ==
    CASE a < 18         -> 32
      [] a < 18 + 3328  -> (a - 18) \div 13
      [] a < 18 + 3584  -> a - 18 - 3328
      [] a < 18 + 3840  -> 255 - (a - 18 - 3584)
      [] a < 18 + 3968  -> 0
      [] OTHER          -> 32
=============================================================================
