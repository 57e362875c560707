----------------------------- MODULE AdaptHuff ------------------------------
(* The adaptive Huffman tree of -lh1- and -lh2-.                             *)
(*                                                                           *)
(* Nodes stand in a row by non-increasing frequency, the root first; node i  *)
(* is position i + 1 of the sequences (i = 0 the root).                      *)
(*   freq[i + 1]   the frequency of node i                                   *)
(*   child[i + 1]  c >= 0: the children are nodes c (bit 0) and c - 1 (bit   *)
(*                 1); c < 0: a leaf for symbol -1 - c                       *)
(*   par[i + 1]    the parent of node i                                      *)
(*   leaf[s + 1]   the node of symbol s                                      *)
(* The sequences may be longer than the tree; n is its number of nodes.      *)
EXTENDS Integers, Sequences, SequencesExt, Bits

RECURSIVE Leader(_, _, _, _)
(* The first node of lo..hi with frequency at most f (freq is sorted)        *)
Leader(freq, f, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi) \div 2
         IN  IF freq[mid + 1] <= f THEN Leader(freq, f, lo, mid)
             ELSE Leader(freq, f, mid + 1, hi)

(* c becomes the child entry of node p: its children or its leaf follow      *)
Hang(t, p, c) ==
    IF c >= 0 THEN [t EXCEPT !.child[p + 1] = c, !.par[c + 1] = p, !.par[c] = p]
    ELSE [t EXCEPT !.child[p + 1] = c, !.leaf[-c] = p]

(* Node p goes up by one: it changes places with the leader of its frequency *)
(* class first, so that the row stays sorted                                 *)
IncNode(t, p) ==
    LET q  == Leader(t.freq, t.freq[p + 1], 0, p)
        t1 == IF q = p THEN t
              ELSE Hang(Hang(t, p, t.child[q + 1]), q, t.child[p + 1])
    IN  [t |-> [t1 EXCEPT !.freq[q + 1] = @ + 1], q |-> q]

RECURSIVE IncUp(_, _)
(* p and all its ancestors below the root go up by one *)
IncUp(t, p) ==
    IF p = 0 THEN t
    ELSE LET x == IncNode(t, p) IN IncUp(x.t, x.t.par[x.q + 1])

(* the tree where symbols 0..n-1 all have frequency 1 *)
RECURSIVE BuildUp(_, _, _)
BuildUp(t, i, j) ==
    IF j < 0 THEN t
    ELSE BuildUp([t EXCEPT !.freq[j + 1] = t.freq[i + 1] + t.freq[i], !.child[j + 1] = i,
                           !.par[i + 1] = j, !.par[i] = j], i - 2, j - 1)

Fill(n, x) == FoldLeft(LAMBDA a, i : Append(a, x), <<>>, [i \in 1..n |-> i])

UniformTree(n) ==
    LET size == 2 * n - 1
        put(t, s) == [t EXCEPT !.freq[size - s] = 1, !.child[size - s] = -1 - s,
                               !.leaf[s + 1] = size - 1 - s]
        t0 == FoldLeft(put, [n |-> size, freq |-> Fill(size, 0), child |-> Fill(size, 0),
                             par |-> Fill(size, 0), leaf |-> Fill(n, 0)],
                       [i \in 1..n |-> i - 1])
    IN  BuildUp(t0, size - 1, size - 1 - n)

(* Rebuilding: every leaf keeps half of its frequency, rounded up, and the   *)
(* inner nodes are made anew from the end of the row; a new node goes before *)
(* the leaves that are not heavier than it.                                  *)
RECURSIVE PlaceLeaves(_, _, _, _, _)
(* the last leaves of ls (indices > k) go to positions i, i-1, ... of t      *)
PlaceLeaves(t, ls, j, k, i) ==
    IF j <= k THEN [t |-> t, i |-> i]
    ELSE PlaceLeaves([t EXCEPT !.freq[i + 1] = ls[j].f, !.child[i + 1] = ls[j].c],
                     ls, j - 1, k, i - 1)

RECURSIVE Rebuild(_, _, _, _, _)
(* ls: the leaves, of which 1..j are not placed; i: the last free node;      *)
(* l, l + 1: the next pair of nodes that gets a parent                       *)
Rebuild(t, ls, j, i, l) ==
    IF i < 0 THEN t
    ELSE LET m1 == IF i >= l THEN j - (i - l + 1) ELSE j      \* leaves left after filling up to l
             x1 == PlaceLeaves(t, ls, j, m1, i)
             f  == x1.t.freq[l + 1] + x1.t.freq[l + 2]
             k  == IF m1 = 0 THEN 0
                   ELSE LET heavier == {h \in 1..m1 : ls[h].f > f}
                        IN  IF heavier = {} THEN 0 ELSE CHOOSE h \in heavier : h + 1 \notin heavier
             x2 == PlaceLeaves(x1.t, ls, m1, k, x1.i)
         IN  Rebuild([x2.t EXCEPT !.freq[x2.i + 1] = f, !.child[x2.i + 1] = l + 1],
                     ls, k, x2.i - 1, l - 2)

Relink(t) ==
    FoldLeft(LAMBDA a, i : Hang(a, i, a.child[i + 1]), t, [i \in 1..t.n |-> i - 1])

Halve(t) ==
    LET isLeaf(i) == t.child[i + 1] < 0
        ls == FoldLeft(LAMBDA a, i : IF t.child[i] < 0
                                     THEN Append(a, [f |-> (t.freq[i] + 1) \div 2, c |-> t.child[i]])
                                     ELSE a,
                       <<>>, [i \in 1..t.n |-> i])
    IN  Relink(Rebuild(t, ls, Len(ls), t.n - 1, t.n - 2))

(* The tree after symbol s, where the root counts all symbols up to a ceiling *)
UpdateAt(t, s, ceiling) ==
    LET t1 == IF t.freq[1] = ceiling THEN Halve(t) ELSE t
    IN  IncUp([t1 EXCEPT !.freq[1] = @ + 1], t1.leaf[s + 1])
UpdateC(t, s) == UpdateAt(t, s, 32768)

RECURSIVE Walk(_, _, _, _)
(* the leaf reached from node p along the bits of s, and the bits used *)
Walk(t, s, c, pos) ==
    IF c < 0 THEN [sym |-> -1 - c, p |-> pos]
    ELSE Walk(t, s, t.child[(c - BitAt(s, pos)) + 1], pos + 1)

(* The position tree of -lh2- grows by one symbol for every 64 bytes.  Its   *)
(* root has a frequency above all others; tot counts the symbols.            *)
Infinity == 65535

SingleTree == [n |-> 1, freq |-> <<1>>, child |-> <<-1>>, par |-> <<0>>, leaf |-> <<0>>, tot |-> 0]

UpdatePAt(t, s, ceiling) ==
    LET t1 == IF t.tot = ceiling
              THEN LET h == Halve(t) IN [h EXCEPT !.tot = h.freq[1], !.freq[1] = Infinity]
              ELSE t
    IN  [IncUp(t1, t1.leaf[s + 1]) EXCEPT !.tot = @ + 1]

UpdateP(t, s) == UpdatePAt(t, s, 32768)

(* symbol s = number of symbols so far: the last leaf is split in two *)
NewSymbolAt(t, ceiling) ==
    LET m == t.n - 1                \* the last node, a leaf
        s == Len(t.leaf)
        c == t.child[m + 1]
        t1 == [t EXCEPT !.n = @ + 2,
                        !.freq  = (IF m = 0 THEN <<Infinity>> ELSE @) \o <<t.freq[m + 1], 0>>,
                        !.child = [@ EXCEPT ![m + 1] = m + 2] \o <<c, -1 - s>>,
                        !.par   = @ \o <<m, m>>,
                        !.leaf  = [@ EXCEPT ![-c] = m + 1] \o <<m + 2>>]
    IN  UpdatePAt(t1, s, ceiling)
NewSymbol(t) == NewSymbolAt(t, 32768)
=============================================================================
