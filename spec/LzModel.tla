------------------------------ MODULE LzModel -------------------------------
(* Sliding windows.  An encoder covers a content with literals and matches,  *)
(* in any way it likes within the window and the longest match; a decoder    *)
(* keeps a ring of the size of the window, filled with blanks at first, and  *)
(* copies byte by byte.  For all contents up to a length over a small        *)
(* alphabet, and all choices: what the decoder has written is always the     *)
(* part of the content covered so far, whether the match names a distance or *)
(* an address of the ring, overlaps itself, or reaches before the start.     *)
EXTENDS Integers, Sequences

CONSTANTS Window, Longest, Size, Careless

Blank == 0
Alphabet == {0, 1}

VARIABLES want,         \* the content
          out,          \* what the decoder wrote
          ring, loc     \* its ring, and where it writes next
vars == <<want, out, ring, loc>>

Contents == UNION {[1..n -> Alphabet] : n \in 0..Size}
Init == want \in Contents /\ out = <<>> /\ ring = [i \in 0..(Window - 1) |-> Blank] /\ loc = 0

(* the byte d places before position p of the content *)
Earlier(p, d) == IF p - d >= 1 THEN want[p - d] ELSE Blank

Literal == /\ Len(out) < Len(want)
           /\ out' = Append(out, want[Len(out) + 1])
           /\ ring' = [ring EXCEPT ![loc] = want[Len(out) + 1]]
           /\ loc' = (loc + 1) % Window
           /\ UNCHANGED want

RECURSIVE Copy(_, _, _)
(* n bytes from address a on *)
Copy(x, a, n) ==
    IF n = 0 THEN x
    ELSE LET c == x.ring[a]
         IN  Copy([out |-> Append(x.out, c), ring |-> [x.ring EXCEPT ![x.loc] = c], loc |-> (x.loc + 1) % Window], (a + 1) % Window, n - 1)

(* the encoder may use a match of n bytes at distance d if the content has it *)
Legal(d, n) == \A i \in 1..n : want[Len(out) + i] = Earlier(Len(out) + i, d)
Far == IF Careless THEN Window + 1 ELSE Window
MatchAt == \E d \in 1..Far, n \in 2..Longest :
             /\ Len(out) + n <= Len(want) /\ Legal(d, n)
             /\ \E x \in {Copy([out |-> out, ring |-> ring, loc |-> loc], (loc - d) % Window, n)} :
                    out' = x.out /\ ring' = x.ring /\ loc' = x.loc
             /\ UNCHANGED want

Next == Literal \/ MatchAt
Spec == Init /\ [][Next]_vars

Faithful == out = SubSeq(want, 1, Len(out))
(* the ring holds the last bytes written: LArc's addresses name them *)
Address(o, a) == ((o - a - 1) % Window) + 1         \* Larc!Back
RingHolds == \A a \in 0..(Window - 1) :
                LET d == Address(Len(out), a) IN ring[a] = (IF Len(out) + 1 - d >= 1 THEN out[Len(out) + 1 - d] ELSE Blank)
=============================================================================
