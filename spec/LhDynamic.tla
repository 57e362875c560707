------------------------------ MODULE LhDynamic ------------------------------
(* -lh1-: adaptive codes for literals and lengths, fixed codes for positions *)
(* -lh2-: adaptive codes for both                                            *)
(* -lh3-: static codes for both, with tables at the head of each block       *)
EXTENDS Integers, Sequences, AdaptHuff, Canon

N1 == 286            \* alphabet of -lh2- and -lh3-; its last symbol takes 8 more bits
NChar1 == 314        \* alphabet of -lh1-

(* positions are given by their upper bits, coded, and 6 lower bits; Fixed   *)
(* gives the first length and the symbols at which the length grows by one   *)
Fixed(first, grow, n) ==
    MakeTable(FoldLeft(LAMBDA a, i : Append(a, first + Len(SelectSeq(grow, LAMBDA g : g <= i))),
                       <<>>, [i \in 1..n |-> i - 1]))
FixedLh1 == Fixed(3, <<1, 4, 12, 24, 48>>, 64)
FixedLh3 == Fixed(2, <<1, 1, 3, 6, 13, 31, 78>>, 128)

Lit(ok, c, r)      == [ok |-> ok, lit |-> TRUE, byte |-> c, len |-> 1, off |-> 0, r |-> r]
Match(ok, l, o, r) == [ok |-> ok, lit |-> FALSE, byte |-> 0, len |-> l, off |-> o, r |-> r]

(*---------------------------------- lh1 ------------------------------------*)
Lh1Start == [p |-> 0, n |-> 1, c |-> UniformTree(NChar1), d |-> FixedLh1]

Lh1Code(s, r) ==
    LET w  == Walk(r.c, s, r.c.child[1], r.p)
        t  == UpdateC(r.c, w.sym)
    IN  IF w.sym < 256 THEN Lit(w.p <= BitLen(s), w.sym, [r EXCEPT !.p = w.p, !.c = t])
        ELSE LET d == CodeOf(r.d, Peek(s, w.p, 16))
                 q == w.p + d.len
             IN  Match(q + 6 <= BitLen(s), w.sym - 253, d.sym * 64 + Peek(s, q, 6) + 1,
                       [r EXCEPT !.p = q + 6, !.c = t])

(*---------------------------------- lh2 ------------------------------------*)
Lh2Start == [p |-> 0, n |-> 1, c |-> UniformTree(N1), d |-> SingleTree, next |-> 64]

RECURSIVE Grow(_, _, _)
(* the positions that have come into reach after o bytes get a symbol *)
Grow(d, next, o) ==
    IF next >= 8192 \/ o <= next THEN [d |-> d, next |-> next]
    ELSE Grow(NewSymbol(d), next + 64, o)

Lh2Code(s, r, o) ==
    LET w == Walk(r.c, s, r.c.child[1], r.p)
        t == UpdateC(r.c, w.sym)
        c == IF w.sym = N1 - 1 THEN w.sym + Peek(s, w.p, 8) ELSE w.sym
        q == IF w.sym = N1 - 1 THEN w.p + 8 ELSE w.p
    IN  IF c < 256 THEN Lit(q <= BitLen(s), c, [r EXCEPT !.p = q, !.c = t])
        ELSE LET g == Grow(r.d, r.next, o)
                 v == Walk(g.d, s, g.d.child[1], q)
             IN  Match(v.p + 6 <= BitLen(s) /\ c - 253 <= 256, c - 253,
                       v.sym * 64 + Peek(s, v.p, 6) + 1,
                       [p |-> v.p + 6, n |-> 1, c |-> t, d |-> UpdateP(g.d, v.sym), next |-> g.next])

(*---------------------------------- lh3 ------------------------------------*)
Lh3Start == [p |-> 0, n |-> 0, c |-> OneTable(0), d |-> OneTable(0)]

Bad3(p) == [ok |-> FALSE, p |-> p, tab |-> OneTable(0)]
Checked(p, lens) == LET t == MakeTable(lens) IN [ok |-> t.full, p |-> p, tab |-> t]

RECURSIVE C3Lens(_, _, _)
C3Lens(s, p, acc) ==
    IF acc = <<1, 1, 1>>
    THEN LET c == Peek(s, p, 9) IN [ok |-> c < N1, p |-> p + 9, tab |-> OneTable(c)]
    ELSE IF Len(acc) = N1 THEN Checked(p, acc)
    ELSE IF BitAt(s, p) = 1 THEN C3Lens(s, p + 5, Append(acc, Peek(s, p + 1, 4) + 1))
         ELSE C3Lens(s, p + 1, Append(acc, 0))

RECURSIVE P3Lens(_, _, _)
P3Lens(s, p, acc) ==
    IF acc = <<1, 1, 1>>
    THEN [ok |-> TRUE, p |-> p + 7, tab |-> OneTable(Peek(s, p, 7))]
    ELSE IF Len(acc) = 128 THEN Checked(p, acc)
    ELSE P3Lens(s, p + 4, Append(acc, Peek(s, p, 4)))

Lh3Head(s, r) ==
    LET n == Peek(s, r.p, 16)
        c == C3Lens(s, r.p + 16, <<>>)
        d == IF ~c.ok THEN Bad3(0)
             ELSE IF BitAt(s, c.p) = 1 THEN P3Lens(s, c.p + 1, <<>>)
             ELSE [ok |-> TRUE, p |-> c.p + 1, tab |-> FixedLh3]
    IN  [ok |-> n > 0 /\ d.ok /\ d.p <= BitLen(s), r |-> [p |-> d.p, n |-> n, c |-> c.tab, d |-> d.tab]]

Lh3Code(s, r) ==
    LET x == CodeOf(r.c, Peek(s, r.p, 16))
        q0 == r.p + x.len
        c == IF x.sym = N1 - 1 THEN x.sym + Peek(s, q0, 8) ELSE x.sym
        q == IF x.sym = N1 - 1 THEN q0 + 8 ELSE q0
    IN  IF c < 256 THEN Lit(q <= BitLen(s), c, [r EXCEPT !.p = q, !.n = @ - 1])
        ELSE LET d == CodeOf(r.d, Peek(s, q, 16))
                 e == q + d.len
             IN  Match(e + 6 <= BitLen(s) /\ c - 253 <= 256, c - 253, d.sym * 64 + Peek(s, e, 6) + 1,
                       [r EXCEPT !.p = e + 6, !.n = @ - 1])
=============================================================================
