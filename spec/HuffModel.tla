----------------------------- MODULE HuffModel ------------------------------
(* All the trees that the adaptive coder can come to over a small alphabet   *)
(* and with a low ceiling: the row stays sorted, every node weighs what its  *)
(* children weigh, and every symbol has a code that leads back to it, also   *)
(* after rebuilding.  Encoder and decoder make the same steps on the same    *)
(* symbols, so that is all a stream needs to be decodable.                   *)
EXTENDS AdaptHuff, TLC

CONSTANTS N,            \* symbols
          Ceiling,      \* the total at which the tree is rebuilt
          Growing       \* the tree of positions, which grows, instead

VARIABLE t

Init == t = IF Growing THEN SingleTree ELSE UniformTree(N)

Symbols == 0..(Len(t.leaf) - 1)
(* a tree of one position has grown long before the ceiling: 64 bytes of output are enough *)
Use == /\ (Growing => Len(t.leaf) > 1 \/ t.tot < Ceiling)
       /\ \E s \in Symbols : t' = IF Growing THEN UpdatePAt(t, s, Ceiling) ELSE UpdateAt(t, s, Ceiling)
Grow == Growing /\ Len(t.leaf) < N /\ t' = NewSymbolAt(t, Ceiling)
Next == Use \/ Grow
Spec == Init /\ [][Next]_t

Nodes == 0..(t.n - 1)
Inner(i) == t.child[i + 1] >= 0
F(i) == t.freq[i + 1]

Sorted == \A i \in 1..(t.n - 2) : F(i) >= F(i + 1)
(* the root of the growing tree has no weight of its own *)
Weighed == \A i \in Nodes : Inner(i) /\ (Growing => i # 0) => F(i) = F(t.child[i + 1]) + F(t.child[i + 1] - 1)
Linked == /\ \A i \in Nodes : IF Inner(i) THEN t.par[t.child[i + 1] + 1] = i /\ t.par[t.child[i + 1]] = i
                              ELSE t.leaf[-t.child[i + 1]] = i
          /\ \A i \in 1..(t.n - 1) : t.par[i + 1] < i /\ t.child[t.par[i + 1] + 1] \in {i, i + 1}
          /\ \A s \in Symbols : t.child[t.leaf[s + 1] + 1] = -1 - s

RECURSIVE PathUp(_)
(* the bits from the root to node i *)
PathUp(i) == IF i = 0 THEN <<>> ELSE Append(PathUp(t.par[i + 1]), IF t.child[t.par[i + 1] + 1] = i THEN 0 ELSE 1)
RECURSIVE Follow(_, _)
Follow(i, b) == IF b = <<>> THEN i ELSE Follow(t.child[i + 1] - Head(b), Tail(b))
Decodable == \A s \in Symbols : Follow(0, PathUp(t.leaf[s + 1])) = t.leaf[s + 1]
Bounded == t.freq[1] <= Ceiling + 1 \/ Growing
=============================================================================
