-------------------------------- MODULE Canon --------------------------------
(* Canonical Huffman codes of at most 16 bits, as LHA assigns them: shorter  *)
(* codes come first, and among codes of one length symbols are in order.     *)
(* Codes are written left-justified in 16 bits.                              *)
EXTENDS Integers, Sequences, SequencesExt, Bits

MaxLen == 16

(* a table where one symbol has the empty code *)
OneTable(sym) == [one |-> sym, base |-> <<>>, syms |-> <<>>, full |-> TRUE]

NoSyms == <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
            <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>

(* lens[i + 1] is the code length of symbol i, 0 if it has no code *)
MakeTable(lens) ==
    LET add(acc, i) == IF lens[i] = 0 THEN acc
                       ELSE [acc EXCEPT ![lens[i]] = Append(@, i - 1)]
        syms == FoldLeft(add, NoSyms, [i \in 1..Len(lens) |-> i])
        next(b, l) == Append(b, b[l] + Len(syms[l]) * Pow2(MaxLen - l))
        base == FoldLeft(next, <<0>>, [l \in 1..MaxLen |-> l])
    IN  [one |-> -1, base |-> base, syms |-> syms, full |-> base[MaxLen + 1] = Pow2(MaxLen)]

(* Length and symbol of the code that the 16 bits v begin with *)
CodeOf(t, v) ==
    IF t.one >= 0 THEN [len |-> 0, sym |-> t.one]
    ELSE LET b == t.base
             l == IF v < b[6] THEN CHOOSE k \in 1..5 : v < b[k + 1]
                  ELSE IF v < b[9] THEN CHOOSE k \in 6..8 : v < b[k + 1]
                  ELSE CHOOSE k \in 9..MaxLen : v < b[k + 1]
         IN  [len |-> l, sym |-> t.syms[l][((v - b[l]) \div Pow2(MaxLen - l)) + 1]]
=============================================================================
