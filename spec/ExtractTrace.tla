---------------------------- MODULE ExtractTrace ----------------------------
(* Judges what operations on an archive did to a tree of files               *)
(* (IOEnv.CASES): the members are read from the archive by the reader of     *)
(* Archive and placed one by one by the rules of Extract.  A case has        *)
(*   id, arc, tz                                                             *)
(*   op      "extract" (all, or names), "dec" (the one named), or one of     *)
(*           those that change nothing ("list", "test", ...)                 *)
(*   opt     [root, cage, force, junk, noexec, names, stdin, room]               *)
(*   before, after  the tree, [path, t, data, mode, time]                    *)
(*   fail    how it broke off; err: it reported an error                     *)
(* Kinds of disagreement:                                                    *)
(*   crash    it broke off                                                   *)
(*   escape   something outside the extraction directory has changed         *)
(*   through  a member that leads outside was not reported                   *)
(*   place    a member is not where it belongs, or something else is there   *)
(*   kept     an existing file was changed without leave                     *)
(*   meta     a time or mode is not the one recorded                         *)
(*   silent   a member could not be extracted, and no error was reported     *)
(*   refused  an error was reported for no reason                            *)
(*   touched  an operation that changes nothing changed something            *)
EXTENDS Archive, Extract, Json, IOUtils, TLC

CONSTANT Judge

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, x, mi, st, bad, step
vars == <<ci, x, mi, st, bad, step>>

K == Cases[ci]
More == bad = "" /\ ci <= Len(Cases)
Counts(w) == w # "" /\ \E k \in Judge : Len(w) > Len(k) /\ SubSeq(w, 1, Len(k)) = k

Paths(ns) == {ns[i].path : i \in DOMAIN ns}
Node(ns, p) == LET n == ns[CHOOSE i \in DOMAIN ns : ns[i].path = p]
               IN  [t |-> n.t, data |-> n.data, mode |-> n.mode, time |-> n.time]
TreeOf(ns) == [p \in Paths(ns) |-> Node(ns, p)]

Nothing == [fs |-> <<>>]
Init == ci = 1 /\ x = Begin(<<>>) /\ mi = 0 /\ st = Nothing /\ bad = "" /\ step = 0 /\ TLCSet(1, 1)

Places == K.op \in {"extract", "dec"} /\ ~K.opt.noexec

Read == More /\ Places /\ ~Ended(x) /\ (\E y \in {Advance(K.arc, K.tz, x)} : x' = y) /\ UNCHANGED <<ci, mi, st, bad>>
Ready == IF Places THEN Ended(x) ELSE TRUE

KindOf(h) == CASE FileType(h.mode) = 10 -> "l"
               [] FileType(h.mode) = 4 \/ MethodOf(h.method) = "lhd" -> "d"
               [] FileType(h.mode) = 8 -> "f"
               [] OTHER -> "?"
HasMode(h) == h.os \in {85, 75, 88}         \* U, K, X
MemberOf(i) ==
    LET h == x.list[i]
        g == x.got[i]
    IN  [name |-> h.name, kind |-> KindOf(h), v |-> CASE g.v \in {"good", "none"} -> "good" [] g.v = "crc" -> "crc" [] OTHER -> "?",
         data |-> IF KindOf(h) = "l" THEN h.real ELSE g.data, time |-> h.time, mode |-> IF HasMode(h) /\ (KindOf(h) = "d" => FileType(h.mode) = 4) THEN h.mode % 512 ELSE -1,
         stripped |-> h.os \in {75, 88}, info |-> MethodOf(h.method) = "lhd"]

Start1 ==
    /\ More /\ Ready /\ mi = 0
    /\ (IF Places /\ x.end # "end" THEN bad' = "harness: the archive is not sound" /\ UNCHANGED <<mi, st>>
        ELSE mi' = 1 /\ st' = (IF Places THEN Begun(TreeOf(K.before), K.opt) ELSE Nothing) /\ UNCHANGED bad)
    /\ UNCHANGED <<ci, x>>

PlaceOne ==
    /\ More /\ Ready /\ Places /\ mi \in 1..Len(x.list)
    /\ mi' = mi + 1
    /\ (\E s \in {Place(st, MemberOf(mi), K.opt)} :
          \* what comes after the end of what is known is loose
          st' = (IF st.stop /\ MemberOf(mi).name # <<>>
                 THEN [s EXCEPT !.loose = @ \cup {Climb(K.opt.root, Comps(Wanted(MemberOf(mi), K.opt.junk)))}]
                 ELSE s))
    /\ UNCHANGED <<ci, x, bad>>

(* nothing is said about p *)
Loose(p) == \E q \in st.loose : p = q \/ (Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p)

Outside(ps) == {p \in ps : ~Inside(K.opt.root, p)}
OutsideWrong ==
    LET b == TreeOf(K.before)
        a == TreeOf(K.after)
    IN  IF \E p \in Outside(DOMAIN a) : p \notin DOMAIN b THEN "escape: something new outside"
        ELSE IF \E p \in Outside(DOMAIN b) : p \notin DOMAIN a THEN "escape: something outside is gone"
        \* a directory changes when the extraction directory is made in it
        ELSE IF \E p \in Outside(DOMAIN b) : a[p] # b[p] /\ ~(p = Parent(K.opt.root) /\ K.opt.root \notin DOMAIN b /\ [a[p] EXCEPT !.time = b[p].time] = b[p])
             THEN "escape: something outside has changed"
        ELSE ""

Missing == K.op = "dec" /\ ~\E i \in DOMAIN x.list : x.list[i].name = K.opt.names[1]

PlacesWrong ==
    LET w == Finished(st)
        a == TreeOf(K.after)
        b == TreeOf(K.before)
        judged == {p \in DOMAIN w \cup DOMAIN a : Inside(K.opt.root, p) /\ ~Loose(p)}
        \* what should be there as it was
        old == {p \in judged : p \in DOMAIN b /\ p \in DOMAIN w /\ w[p].t # "d" /\ w[p] = b[p]}
    IN  IF st.err = "must" /\ ~K.err THEN st.why
        ELSE IF Missing /\ ~K.err THEN "silent: there is no such member"
        ELSE IF st.err = "no" /\ ~Missing /\ K.err THEN "refused: " \o K.text
        ELSE IF \E p \in old : IF p \in DOMAIN a THEN ~Fits(a[p], w[p]) ELSE TRUE THEN "kept: an existing file has changed"
        ELSE IF \E p \in judged : p \in DOMAIN w /\ p \notin DOMAIN a THEN "place: something is missing"
        ELSE IF \E p \in judged : p \notin DOMAIN w THEN "place: something that does not belong there"
        ELSE IF \E p \in judged : a[p].t # w[p].t \/ (w[p].t # "d" /\ a[p].data # w[p].data) THEN "place: other content"
        ELSE IF \E p \in judged : w[p].t # "d" /\ ~Fits(a[p], w[p]) THEN "meta: of a file"
        ELSE IF \E p \in judged : w[p].t = "d" /\ w[p].mode # -1 /\ a[p].mode # w[p].mode THEN "meta: mode of a directory"
        ELSE IF \E p \in judged : w[p].t = "d" /\ a[p].time # w[p].time
                                  /\ \E i \in DOMAIN st.dirs : st.dirs[i].p = p /\ st.dirs[i].time = w[p].time /\ w[p].time # AnyWhen
             THEN "meta: time of a directory"
        ELSE ""

Wrongs ==
    IF K.fail # "" THEN <<"crash: " \o K.fail>>
    ELSE IF ~Places THEN <<IF TreeOf(K.before) # TreeOf(K.after) THEN "touched: by " \o K.op ELSE "">>
    ELSE <<OutsideWrong, PlacesWrong>>

Finish ==
    /\ More /\ Ready /\ mi > (IF Places THEN Len(x.list) ELSE 0)
    /\ (\E w \in {SelectSeq(Wrongs, Counts)} :
          IF w # <<>> THEN bad' = w[1] /\ UNCHANGED <<ci, x, mi, st>>
          ELSE ci' = ci + 1 /\ x' = Begin(<<>>) /\ mi' = 0 /\ st' = Nothing /\ TLCSet(1, ci + 1) /\ UNCHANGED bad)

Next == (Read \/ Start1 \/ PlaceOne \/ Finish) /\ step' = step + 1
Spec == Init /\ [][Next]_vars

View == <<ci, mi, step, bad>>
NoBad == bad = "" \/ (PrintT("BAD|" \o K.id \o "|" \o bad) /\ FALSE)
AllRead == TLCGet(1) = Len(Cases) + 1
Alias == [case |-> IF ci <= Len(Cases) THEN K.id ELSE "", at |-> mi, op |-> IF ci <= Len(Cases) THEN K.op ELSE "", bad |-> bad]
=============================================================================
