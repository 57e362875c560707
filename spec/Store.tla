------------------------------- MODULE Store --------------------------------
(* An archive as a sequence of members, and what adding files does to it.    *)
(*                                                                           *)
(* A member is a record with at least [name, time], a source with at least   *)
(*   name   the last component of its path                                   *)
(*   entry  the name of its member (a directory's ends with a slash)         *)
(*   kind   "f" file, "d" directory, "l" symbolic link, "x" not there        *)
(*   time   when it was last modified                                        *)
(*   self   it is the archive itself                                         *)
(*   under  the names of the directories it was found in, when a directory   *)
(*          is added with its contents                                       *)
(* and the options o are [sort, update, fresh, generic, exclude, auto]; with *)
(* auto the sources are all the files there, of which those go that have the *)
(* name of a member.                                                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LessFrom(a, b, i + 1)
Less(a, b) == LessFrom(a, b, 1)

Later(s, t) == s.day > t.day \/ (s.day = t.day /\ s.sec > t.sec)

Upper(n) == FoldLeft(LAMBDA a, c : Append(a, IF c \in 97..122 THEN c - 32 ELSE c), <<>>, n)

NamesOf(ms) == {ms[i].name : i \in DOMAIN ms}
EntriesOf(ss) == {ss[i].entry : i \in DOMAIN ss}
Named1(ms, n) == ms[CHOOSE i \in DOMAIN ms : ms[i].name = n]
Ascending(ns) == \A i \in 1..(Len(ns) - 1) : Less(ns[i], ns[i + 1])
Unique(ms) == Cardinality(NamesOf(ms)) = Len(ms)

(* a name without the slash at its end *)
Bare(n) == IF n # <<>> /\ n[Len(n)] = 47 THEN SubSeq(n, 1, Len(n) - 1) ELSE n

(* does source s go into the archive ms? *)
Goes(ms, s, o) ==
    /\ s.kind # "x" /\ ~s.self
    /\ Upper(s.name) \notin o.exclude
    /\ \A i \in DOMAIN s.under : Upper(s.under[i]) \notin o.exclude
    /\ (o.generic => s.kind = "f")
    /\ (o.auto => \E i \in DOMAIN ms : Bare(ms[i].name) = s.name)
    /\ (o.update /\ s.entry \in NamesOf(ms) => Later(s.time, Named1(ms, s.entry).time))

Base(ms, o) == IF o.fresh THEN <<>> ELSE ms
Going(ms, ss, o) == SelectSeq(ss, LAMBDA s : Goes(Base(ms, o), s, o))
Kept(ms, ss, o) == LET e == EntriesOf(Going(ms, ss, o)) IN SelectSeq(Base(ms, o), LAMBDA m : m.name \notin e)

(* the order of the new archive: the members kept keep their order; those     *)
(* added come last in the order they were given, or, with sorting, what was   *)
(* in order stays in order                                                    *)
InOrder(ms, ss, o, names) ==
    LET going == Going(ms, ss, o)
        kept == Kept(ms, ss, o)
        kn == FoldLeft(LAMBDA a, m : Append(a, m.name), <<>>, kept)
        bn == FoldLeft(LAMBDA a, m : Append(a, m.name), <<>>, Base(ms, o))
        gn == FoldLeft(LAMBDA a, s : Append(a, s.entry), <<>>, going)
        e == EntriesOf(going)
    IN  /\ SelectSeq(names, LAMBDA n : n \notin e) = kn
        /\ Len(names) = Len(kn) + Len(gn)
        /\ \A n \in e : \E i \in DOMAIN names : names[i] = n
        /\ (~o.sort => names = kn \o gn)
        /\ (o.sort /\ Ascending(bn) /\ Ascending(gn) => Ascending(names))

(* one way to do it: go through the old archive once, putting every new      *)
(* member before the first old one that comes after it                       *)
RECURSIVE Merge(_, _, _, _)
Merge(old, new, drop, o) ==
    IF new = <<>> THEN SelectSeq(old, LAMBDA m : m.name \notin drop)
    ELSE IF old = <<>> THEN new
    ELSE IF o.sort /\ Less(new[1].name, old[1].name) THEN <<new[1]>> \o Merge(old, Tail(new), drop, o)
    ELSE IF old[1].name \in drop THEN Merge(Tail(old), new, drop, o)
    ELSE <<old[1]>> \o Merge(Tail(old), new, drop, o)
=============================================================================
