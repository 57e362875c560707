---------------------------- MODULE ExtractModel ----------------------------
(* Extraction as it happens: members are placed by system calls that follow  *)
(* links and dot-dot, after the checks that Extract describes.  Shown for    *)
(* all sequences of members from a small set: nothing outside the extraction *)
(* directory ever changes, what Extract says about the tree is what the      *)
(* calls do, and no file is replaced without leave.  With one check left out *)
(* (Careless) the first of these fails.                                      *)
EXTENDS Extract, TLC

CONSTANTS Members,      \* how many members an archive has at most
          Careless      \* "no", or what is not checked: "dots", "links", "last"

(* cage/r is the extraction directory, cage/o lies outside *)
R == <<<<114>>>>
O == <<<<111>>>>
F == <<102>>
D == <<100>>
L == <<108>>
S == <<115>>

File(c) == [t |-> "f", data |-> <<c>>, mode |-> -1, time |-> [day |-> 1, sec |-> 0]]
Link(to) == [t |-> "l", data |-> to, mode |-> -1, time |-> AnyWhen]

Bare == [p \in {<<>>, R, O, O \o <<S>>} |-> IF p = O \o <<S>> THEN File(1) ELSE NewDir]
Trees == {Bare, With1(Bare, R \o <<F>>, File(2)),
          With1(Bare, R \o <<L>>, Link(<<46, 46, 47, 111>>)),           \* l -> ../o
          With1(With1(Bare, R \o <<D, F>>, File(3)), R \o <<L>>, Link(<<46, 46, 47, 111, 47, 115>>))}  \* l -> ../o/s

Slashed(cs) == FoldLeft(LAMBDA a, c : IF a = <<>> THEN c ELSE a \o <<Sep>> \o c, <<>>, cs)
Names == {F, D, L, Slashed(<<D, F>>), Slashed(<<L, S>>), Slashed(<<L, F>>), Slashed(<<DotDot, <<111>>, S>>),
          Slashed(<<D, DotDot, DotDot, <<111>>, F>>), <<Sep>> \o F, Slashed(<<L, DotDot, F>>)}
Targets == {<<46, 46, 47, 111>>, <<46, 46, 47, 111, 47, 115>>, D, <<46, 46>>}
Member(n, k, d) == [name |-> n, kind |-> k, v |-> "good", data |-> d, time |-> [day |-> 2, sec |-> 0], mode |-> -1, stripped |-> FALSE, info |-> FALSE]
AllMembers == {Member(n, "f", <<9>>) : n \in Names} \cup {Member(n, "d", <<>>) : n \in Names}
              \cup {Member(n, "l", t) : n \in {L, D, Slashed(<<D, F>>)}, t \in Targets}
Answers == {<<>>, <<121, 10>>, <<110, 10, 121, 10>>, <<97, 10>>, <<115, 10>>}
O1 == [root |-> R, cage |-> <<<<99>>>>, junk |-> FALSE, names |-> <<>>]

VARIABLES fs0, fs, st, n, leave
vars == <<fs0, fs, st, n, leave>>

Init == /\ fs0 \in Trees /\ fs = fs0 /\ n = 0 /\ leave = {}
        /\ st \in {Begun(fs0, [force |-> f, stdin |-> i, room |-> -1]) : f \in BOOLEAN, i \in Answers}

(*------------------------- what the kernel does ----------------------------*)
RECURSIVE Go(_, _, _, _, _)
(* the physical path of cs from base; the last component is followed or not *)
Go(t, base, cs, follow, fuel) ==
    IF cs = <<>> \/ fuel = 0 THEN base
    ELSE LET c == cs[1]
             rest == Tail(cs)
         IN  IF c = DotDot THEN Go(t, IF base = <<>> THEN base ELSE Parent(base), rest, follow, fuel)
             ELSE LET x == Append(base, c)
                  IN  IF Is(t, x, "l") /\ (rest # <<>> \/ follow)
                      THEN Go(t, base, Comps(t[x].data) \o rest, follow, fuel - 1)
                      ELSE Go(t, x, rest, follow, fuel)
(* the file at cs is removed, if there is one, and made anew *)
Make(t, cs, node) ==
    LET p == Go(t, R, cs, Careless = "last", 4)
    IN  IF \E x \in Above(p) : Is(t, x, "f") THEN t
        ELSE IF Is(t, p, "d") THEN t
        ELSE With1(t, p, node)
MakeDir(t, cs) ==
    LET p == Go(t, R, cs, TRUE, 4)
    IN  IF \E x \in Above(p) \cup {p} : Is(t, x, "f") THEN t ELSE IF Has(t, p) THEN t ELSE With1(t, p, NewDir)

(*--------------------------------- steps -----------------------------------*)
Cs(m) == Comps(Wanted(m, FALSE))
Through(m) == \E x \in Above(R \o Cs(m)) : Len(x) > 1 /\ Is(fs, x, "l")
(* is the member written, though Extract would not? *)
Anyway(m) == \/ Careless = "dots" /\ Dots(Cs(m)) /\ ~Through(m)
             \/ Careless = "links" /\ ~Dots(Cs(m)) /\ Through(m)

Step(m) ==
    /\ n < Members /\ ~st.stop
    /\ n' = n + 1
    /\ (\E s \in {Place(st, m, O1)} :
          /\ st' = s
          /\ fs' = (IF s.fs # st.fs \/ Anyway(m)
                    THEN IF m.kind = "d" THEN MakeDir(fs, Cs(m)) ELSE Make(fs, Cs(m), NodeOf(m))
                    ELSE fs)
          /\ leave' = leave \cup (IF s.force \/ s.skip \/ (Len(s.in) < Len(st.in) /\ Ask(st.in).a \in {"Y", "A"}) THEN {R \o Cs(m)} ELSE {}))
    /\ UNCHANGED fs0

Next == \E m \in AllMembers : Step(m)
Spec == Init /\ [][Next]_vars

Contained == \A p \in DOMAIN fs \cup DOMAIN fs0 :
                ~Inside(R, p) => p \in DOMAIN fs /\ p \in DOMAIN fs0 /\ fs[p] = fs0[p]
Agrees == fs = st.fs
Asked == \A p \in DOMAIN fs0 : Inside(R, p) /\ fs0[p].t = "f" /\ p \notin leave => fs[p] = fs0[p]
=============================================================================
