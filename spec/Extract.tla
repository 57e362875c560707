------------------------------- MODULE Extract -------------------------------
(* What extraction does to a tree of files.                                  *)
(*                                                                           *)
(* A path is a sequence of components (sequences of bytes); a tree fs is a   *)
(* function from paths to nodes [t, data, mode, time]: t is "f" file, "d"    *)
(* directory, "l" symbolic link (data is its target).  A mode of -1 and a    *)
(* time of AnyWhen are not known.  root is the extraction directory; link    *)
(* targets that are absolute begin with the components cage.                 *)
(*                                                                           *)
(* A member m is [name, kind ("f", "d", "l", "?"), v ("good", "crc", "?"),   *)
(* data, time, mode (-1: not recorded), stripped (see below), info].         *)
(* The state of an extraction:                                               *)
(*   fs     the tree                                                         *)
(*   force  existing files are replaced without asking                       *)
(*   skip   existing files are replaced only by newer ones, without asking   *)
(*   in     what is left of the answers                                      *)
(*   err    "no", "may" or "must" an error be reported                       *)
(*   why    what kind of error                                               *)
(*   stop   no more is known to happen                                       *)
(*   loose  paths about which nothing is said any more                       *)
(*   dirs   directories whose time and mode are set in the end               *)
(*   room   files larger than this cannot be written; -1: any can            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

AnyWhen == [day |-> -1, sec |-> -1]
After1(s, t) == s.day > t.day \/ (s.day = t.day /\ s.sec > t.sec)

(*-------------------------------- paths ------------------------------------*)
Sep == 47
Split(b) ==
    LET r == FoldLeft(LAMBDA a, c : IF c = Sep THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                                    ELSE [a EXCEPT !.cur = Append(@, c)],
                      [done |-> <<>>, cur |-> <<>>], b)
    IN  Append(r.done, r.cur)
Comps(b) == SelectSeq(Split(b), LAMBDA c : c # <<>> /\ c # <<46>>)
DotDot == <<46, 46>>
Dots(cs) == \E i \in DOMAIN cs : cs[i] = DotDot

(* where the components lead from a directory, links aside *)
Climb(base, cs) ==
    FoldLeft(LAMBDA a, c : IF c # DotDot THEN Append(a, c) ELSE IF a = <<>> THEN a ELSE SubSeq(a, 1, Len(a) - 1), base, cs)

Inside(root, p) == Len(p) >= Len(root) /\ SubSeq(p, 1, Len(root)) = root
Above(p) == {SubSeq(p, 1, i) : i \in 0..(Len(p) - 1)}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Absolute(b) == b # <<>> /\ b[1] = Sep

(* where the link at p leads, links on the way aside *)
Leads(cage, p, target) ==
    LET cs == Comps(target)
    IN  IF ~Absolute(target) THEN Climb(Parent(p), cs)
        ELSE IF Len(cs) >= Len(cage) /\ SubSeq(cs, 1, Len(cage)) = cage THEN Climb(<<>>, SubSeq(cs, Len(cage) + 1, Len(cs)))
        ELSE <<DotDot>>

RECURSIVE LeftTrim(_)
LeftTrim(b) == IF Absolute(b) THEN LeftTrim(Tail(b)) ELSE b
AfterSlash(b) == IF \E i \in DOMAIN b : b[i] = Sep
                 THEN LET k == CHOOSE i \in DOMAIN b : b[i] = Sep /\ \A j \in DOMAIN b : b[j] = Sep => j <= i
                      IN  SubSeq(b, k + 1, Len(b))
                 ELSE b
UpToSlash(b) == IF \E i \in DOMAIN b : b[i] = Sep
                THEN LET k == CHOOSE i \in DOMAIN b : b[i] = Sep /\ \A j \in DOMAIN b : b[j] = Sep => j >= i
                     IN  SubSeq(b, k + 1, Len(b))
                ELSE <<>>

(* the path of a member, as it is written: never absolute; without its        *)
(* directory if so wanted; without the name of a device on some systems       *)
Wanted(m, junk) ==
    LET q == IF junk THEN AfterSlash(m.name) ELSE m.name
    IN  IF ~Absolute(q) THEN q
        ELSE IF ~m.stripped THEN LeftTrim(q)
        ELSE LET r == LeftTrim(UpToSlash(LeftTrim(q))) IN IF r = <<>> THEN <<46>> ELSE r

(*-------------------------------- answers ----------------------------------*)
RECURSIVE Ask(_)
(* the user's answer: [a, in], a is "Y", "N", "A" or "S" *)
Ask(in) ==
    IF ~\E i \in DOMAIN in : in[i] = 10 THEN [a |-> "N", in |-> <<>>]
    ELSE LET k == CHOOSE i \in DOMAIN in : in[i] = 10 /\ \A j \in 1..(i - 1) : in[j] # 10
             rest == SubSeq(in, k + 1, Len(in))
         IN  CASE in[1] \in {89, 121} -> [a |-> "Y", in |-> rest]
               [] in[1] \in {78, 110, 10} -> [a |-> "N", in |-> rest]
               [] in[1] \in {65, 97} -> [a |-> "A", in |-> rest]
               [] in[1] \in {83, 115} -> [a |-> "S", in |-> rest]
               [] OTHER -> Ask(rest)

(*------------------------------- extraction --------------------------------*)
Has(fs, p) == p \in DOMAIN fs
Is(fs, p, t) == Has(fs, p) /\ fs[p].t = t

NewDir == [t |-> "d", data |-> <<>>, mode |-> -1, time |-> AnyWhen]
(* fs with n at p, and with the directories that lead there *)
With1(fs, p, n) ==
    [x \in DOMAIN fs \cup {p} \cup Above(p) |-> IF x = p THEN n ELSE IF x \in DOMAIN fs THEN fs[x] ELSE NewDir]

Begun(fs, o) == [fs |-> fs, force |-> o.force, skip |-> FALSE, in |-> o.stdin, err |-> "no", why |-> "", stop |-> FALSE,
                 loose |-> {}, dirs |-> <<>>, room |-> o.room]

Refuse(st, why) == [st EXCEPT !.err = "must", !.why = why, !.stop = TRUE]
Unclear(st, p) == [st EXCEPT !.err = "may", !.stop = TRUE, !.loose = @ \cup {p}]

NodeOf(m) == [t |-> m.kind, data |-> m.data, mode |-> IF m.kind = "l" THEN -1 ELSE m.mode,
              time |-> IF m.kind = "l" THEN AnyWhen ELSE m.time]

(* m is put at p, or its data turn out to be damaged *)
Written(st, m, p) ==
    IF m.kind = "f" /\ st.room # -1 /\ Len(m.data) > st.room THEN [Refuse(st, "silent: no room") EXCEPT !.loose = @ \cup {p}]
    ELSE IF m.v = "crc" THEN [Refuse(st, "silent: damaged data") EXCEPT !.loose = @ \cup {p}]
    ELSE [st EXCEPT !.fs = With1(@, p, NodeOf(m))]

IfNewer(st, m, p) ==
    IF m.time = AnyWhen \/ st.fs[p].time = AnyWhen THEN Unclear(st, p)
    ELSE IF After1(m.time, st.fs[p].time) THEN Written(st, m, p) ELSE st

(* a file or link at p *)
PutFile(st, m, p) ==
    IF ~Has(st.fs, p) THEN Written(st, m, p)
    ELSE IF st.fs[p].t = "d" THEN (IF st.skip /\ ~st.force THEN Unclear(st, p) ELSE Refuse(st, "silent: a directory is in the way"))
    ELSE IF st.force THEN Written(st, m, p)
    ELSE IF st.skip THEN (IF st.fs[p].t = "f" THEN IfNewer(st, m, p) ELSE Unclear(st, p))
    ELSE IF st.fs[p].t # "f" THEN Refuse(st, "silent: what is in the way is not a file")
    ELSE LET w == Ask(st.in)
             s == [st EXCEPT !.in = w.in]
         IN  CASE w.a = "Y" -> Written(s, m, p)
               [] w.a = "A" -> Written([s EXCEPT !.force = TRUE], m, p)
               [] w.a = "S" -> IfNewer([s EXCEPT !.skip = TRUE], m, p)
               [] OTHER -> s

PutDir(st, m, p) ==
    IF Is(st.fs, p, "f") THEN Refuse(st, "silent: a file is in the way")
    ELSE IF Is(st.fs, p, "l") THEN Unclear(st, p)
    ELSE LET s == IF Has(st.fs, p) THEN st ELSE [st EXCEPT !.fs = With1(@, p, NewDir)]
         IN  IF m.info THEN [s EXCEPT !.dirs = Append(@, [p |-> p, time |-> m.time, mode |-> m.mode])] ELSE s

(* one member; o is [root, cage, junk, names] *)
Place(st, m, o) ==
    LET q == Wanted(m, o.junk)
        cs == Comps(q)
        p == o.root \o cs
        slash == q # <<>> /\ q[Len(q)] = Sep
        via == {x \in Above(p) \cup (IF slash THEN {p} ELSE {}) : Len(x) > Len(o.root) /\ Is(st.fs, x, "l")}
        first == CHOOSE x \in via : \A y \in via : Len(x) <= Len(y)
    IN  IF st.stop \/ (o.names # <<>> /\ ~\E i \in DOMAIN o.names : o.names[i] = m.name) THEN st
        ELSE IF Dots(cs) THEN (IF Inside(o.root, Climb(o.root, cs)) THEN Unclear(st, Climb(o.root, cs)) ELSE Refuse(st, "through: dot-dot"))
        ELSE IF via # {} THEN (IF Inside(o.root, Leads(o.cage, first, st.fs[first].data)) THEN Unclear(st, first)
                               ELSE Refuse(st, "through: a link that leads outside"))
        ELSE IF m.kind = "?" \/ m.v = "?" THEN Unclear(st, p)
        ELSE IF m.kind \in {"d", "l"} /\ o.junk THEN st
        ELSE IF \E x \in Above(p) : Is(st.fs, x, "f") THEN Refuse(st, "silent: a file is in the way")
        ELSE IF m.kind = "d" THEN PutDir(st, m, p)
        ELSE IF p = o.root \/ slash THEN Unclear(st, p)
        ELSE PutFile(st, m, p)

(* in the end, directories get their time and mode *)
Finished(st) ==
    LET once == {i \in DOMAIN st.dirs : \A j \in DOMAIN st.dirs : st.dirs[j].p = st.dirs[i].p => j = i}
    IN  FoldLeft(LAMBDA a, i : IF i \in once THEN [a EXCEPT ![st.dirs[i].p].time = st.dirs[i].time, ![st.dirs[i].p].mode = st.dirs[i].mode]
                               ELSE [a EXCEPT ![st.dirs[i].p].mode = -1],
                 st.fs, [i \in 1..Len(st.dirs) |-> i])

(*------------------------------- comparison --------------------------------*)
Fits(n, w) ==           \* node n is what is wanted: w
    /\ n.t = w.t /\ (w.t # "d" => n.data = w.data)
    /\ (w.time # AnyWhen => n.time = w.time)
    /\ (w.mode # -1 => n.mode = w.mode)
=============================================================================
