---------------------------- MODULE CanonModel ------------------------------
(* All tables of code lengths for a small alphabet that fill the code space: *)
(* every bit string begins with exactly one code, the codes have the lengths *)
(* asked for, and they are in order.                                         *)
EXTENDS Canon, FiniteSets, TLC

CONSTANTS N, L          \* symbols, longest code

VARIABLE lens

Init == lens \in [1..N -> 0..L]
Next == UNCHANGED lens
Spec == Init /\ [][Next]_lens

Table == MakeTable(lens)
Heads == {i * Pow2(MaxLen - L) : i \in 0..(Pow2(L) - 1)}     \* all strings of L bits
RECURSIVE Room(_)
Room(i) == IF i = 0 THEN 0 ELSE Room(i - 1) + IF lens[i] = 0 THEN 0 ELSE Pow2(L - lens[i])

FullIsFull == Table.full <=> Room(N) = Pow2(L)
Covered == Table.full => \A v \in Heads : LET c == CodeOf(Table, v) IN c.sym \in 0..(N - 1) /\ c.len = lens[c.sym + 1]
Shares == Table.full => \A s \in 0..(N - 1) :
              Cardinality({v \in Heads : CodeOf(Table, v).sym = s}) = IF lens[s + 1] = 0 THEN 0 ELSE Pow2(L - lens[s + 1])
Ordered == Table.full => \A v \in Heads, w \in Heads : v < w =>
              LET c == CodeOf(Table, v) d == CodeOf(Table, w)
              IN  c.len < d.len \/ (c.len = d.len /\ c.sym <= d.sym)
=============================================================================
