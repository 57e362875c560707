--------------------------------- MODULE Pm2 ---------------------------------
(* -pm2-: literals are places in a list of bytes by recency; the code tables *)
(* are renewed when 0, 1K, 2K, 4K, 8K, 12K ... bytes have been written.      *)
EXTENDS Integers, Sequences, Bits, Canon, LhDynamic

Upto(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
FirstBytes == Upto(32, 127) \o Upto(0, 31) \o Upto(160, 223) \o Upto(128, 159) \o Upto(224, 255)

ToFront(h, b) == IF h[1] = b THEN h ELSE <<b>> \o SelectSeq(h, LAMBDA x : x # b)

HistBits == <<3, 3, 4, 5, 5, 5, 6, 6>>
HistBase == <<0, 8, 16, 32, 64, 96, 128, 192>>
RepBits  == <<3, 3, 5, 6, 7, 0>>
RepBase  == <<17, 25, 33, 65, 129, 256>>

Pm2Start == [p |-> 1, n |-> 0, next |-> 0, h |-> FirstBytes, bound |-> 0, single |-> FALSE,
             c |-> OneTable(0), d |-> OneTable(0)]

RECURSIVE Fields(_, _, _, _)
(* n numbers of w bits each from position p *)
Fields(s, p, w, n) == IF n = 0 THEN <<>> ELSE <<Peek(s, p, w)>> \o Fields(s, p + w, w, n - 1)

Tree1(s, p) ==
    LET bound == Peek(s, p, 5)
        depth == Peek(s, p + 5, 3)
        nbits == Peek(s, p + 8, 3)
    IN  IF depth = 0
        THEN [ok |-> bound >= 1 /\ bound <= 29, p |-> p + 8, bound |-> bound, single |-> TRUE,
              tab |-> OneTable(bound - 1)]
        ELSE LET xs   == Fields(s, p + 11, nbits, bound)
                 lens == FoldLeft(LAMBDA a, x : Append(a, IF x = 0 THEN 0 ELSE x - 1 + depth), <<>>, xs)
                 fits == \A i \in 1..bound : lens[i] <= MaxLen
                 t    == MakeTable(lens)
             IN  IF ~fits \/ bound > 29
                 THEN [ok |-> FALSE, p |-> p, bound |-> 0, single |-> FALSE, tab |-> OneTable(0)]
                 ELSE [ok |-> t.full, p |-> p + 11 + nbits * bound, bound |-> bound,
                       single |-> FALSE, tab |-> t]

(* the table of offsets: not there when no code needs it *)
Tree2(s, p, n, bound, single, old) ==
    IF bound < 10 \/ (bound = 29 /\ single) THEN [ok |-> TRUE, p |-> p, tab |-> old]
    ELSE LET lens == Fields(s, p, 3, n)
             used == {i \in 1..n : lens[i] > 0}
             t    == MakeTable(lens)
         IN  CASE used = {} -> [ok |-> TRUE, p |-> p + 3 * n, tab |-> old]
               [] \E i \in used : used = {i} ->
                    [ok |-> TRUE, p |-> p + 3 * n, tab |-> OneTable((CHOOSE i \in used : TRUE) - 1)]
               [] OTHER -> [ok |-> t.full, p |-> p + 3 * n, tab |-> t]

Pm2Due(r, o) == o >= r.next

(* tables are renewed *)
Pm2Head(s, r) ==
    LET flag == r.next >= 4096                  \* a bit tells whether there is a table
        new1 == r.next = 0 \/ (flag /\ BitAt(s, r.p) = 1)
        new2 == r.next <= 4096 \/ new1
        p0   == IF flag THEN r.p + 1 ELSE r.p
        t1   == IF new1 THEN Tree1(s, p0)
                ELSE [ok |-> TRUE, p |-> p0, bound |-> r.bound, single |-> r.single, tab |-> r.c]
        n2   == CASE r.next = 0 -> 5 [] r.next = 1024 -> 6 [] r.next = 2048 -> 7 [] OTHER -> 8
        t2   == IF new2 THEN Tree2(s, t1.p, n2, t1.bound, t1.single, r.d)
                ELSE [ok |-> TRUE, p |-> t1.p, tab |-> r.d]
    IN  [ok |-> t1.ok /\ t2.ok /\ t2.p <= BitLen(s),
         r  |-> [r EXCEPT !.p = t2.p, !.c = t1.tab, !.d = t2.tab, !.bound = t1.bound,
                          !.single = t1.single,
                          !.next = IF r.next = 0 THEN 1024 ELSE IF r.next = 1024 THEN 2048
                                   ELSE IF r.next = 2048 THEN 4096 ELSE r.next + 4096]]

Pm2Code(s, r) ==
    LET c == CodeOf(r.c, Peek(s, r.p, 16))
        q == r.p + c.len
    IN  IF c.sym < 8
        THEN LET w == HistBits[c.sym + 1]
             IN  Lit(q + w <= BitLen(s), r.h[HistBase[c.sym + 1] + Peek(s, q, w) + 1],
                     [r EXCEPT !.p = q + w])
        ELSE LET w   == IF c.sym < 23 THEN 0 ELSE RepBits[c.sym - 22]
                 len == IF c.sym < 23 THEN c.sym - 6 ELSE RepBase[c.sym - 22] + Peek(s, q, w)
                 q1  == q + w
                 d   == IF c.sym = 8 THEN [len |-> 0, sym |-> 0] ELSE CodeOf(r.d, Peek(s, q1, 16))
                 nb  == IF d.sym = 0 THEN 6 ELSE 5 + d.sym
                 q2  == q1 + d.len
             IN  IF c.sym = 28 THEN Match(q1 <= BitLen(s), len, 1, [r EXCEPT !.p = q1])
                 ELSE Match(q2 + nb <= BitLen(s), len,
                            (IF d.sym = 0 THEN 0 ELSE Pow2(nb)) + Peek(s, q2, nb) + 1,
                            [r EXCEPT !.p = q2 + nb])

(* the list of recent bytes after the bytes bs were written *)
Pm2Wrote(r, bs) == [r EXCEPT !.h = FoldLeft(ToFront, @, bs)]
=============================================================================
