---------------------------- MODULE HeaderModel -----------------------------
(* Headers written by the rules of the format, for all members of a small    *)
(* set: reading one gives back the member; a header cut short, or with a     *)
(* byte changed where its check covers it, is never taken for a sound one.   *)
EXTENDS Header, TLC

Method == <<45, 108, 104, 53, 45>>
LE16(n) == <<n % 256, n \div 256>>
LE32(n) == LE16(n.lo) \o LE16(n.hi)

(* level 0 and 1: a checksum over what follows the first two bytes *)
Summed(b) == <<Len(b), Sum(b)>> \o b

Stamp == [hi |-> 14000, lo |-> 513]            \* 5 May 2007, 00:16:02, as MS-DOS has it
Moment == [hi |-> 17981, lo |-> 4098]          \* the same in seconds since 1970, about

Ext(t, d, w) == [t |-> t, d |-> d, n |-> Len(d) + 1 + w]
(* the chain of extensions: the size of each stands before it, 0 after the last *)
Linked(es, w) ==
    LET size(n) == IF w = 2 THEN LE16(n) ELSE LE32([hi |-> 0, lo |-> n])
        next(i) == IF i = Len(es) THEN size(0) ELSE size(es[i + 1].n)
    IN  FoldLeft(LAMBDA a, i : a \o <<es[i].t>> \o es[i].d \o next(i), <<>>, [i \in 1..Len(es) |-> i])
First(es, w) == LET n == IF es = <<>> THEN 0 ELSE es[1].n IN IF w = 2 THEN LE16(n) ELSE LE32([hi |-> 0, lo |-> n])

Exts(m, w, crc) ==
    (IF m.level > 1 THEN <<Ext(0, crc, w)>> ELSE <<>>)
    \o (IF m.level > 1 THEN <<Ext(1, m.name, w)>> ELSE <<>>)
    \o (IF m.dir # <<>> /\ m.level > 0 THEN <<Ext(2, m.dir, w)>> ELSE <<>>)
    \o (IF m.unix /\ m.level > 0 THEN <<Ext(80, LE16(33188), w), Ext(81, <<1, 2, 3, 4>>, w)>> ELSE <<>>)
    \o (IF m.other /\ m.level > 0 THEN <<Ext(99, <<0, 7>>, w)>> ELSE <<>>)

Write0(m) ==
    Summed(Method \o LE32(m.packed) \o LE32(m.size) \o LE32(Stamp) \o <<32, 0>> \o <<Len(m.name)>> \o m.name \o LE16(m.crc)
           \o (IF m.unix THEN <<85, 0>> \o LE32(Moment) \o LE16(33188) \o <<3, 4, 1, 2>> ELSE <<>>))

Plus1(n, k) == IF n.lo + k < 65536 THEN [n EXCEPT !.lo = @ + k] ELSE [hi |-> n.hi + 1, lo |-> n.lo + k - 65536]

Write1(m) ==
    LET es == Exts(m, 2, <<>>)
        tail == Linked(es, 2)
    IN  Summed(Method \o LE32(Plus1(m.packed, Len(tail))) \o LE32(m.size) \o LE32(Stamp) \o <<32, 1>> \o <<Len(m.name)>> \o m.name
               \o LE16(m.crc) \o <<85>> \o First(es, 2)) \o tail

Whole2(m, crc) ==
    LET es == Exts(m, 2, crc)
        tail == Linked(es, 2)
        pad == IF (26 + Len(tail)) % 256 = 0 THEN <<0>> ELSE <<>>
    IN  LE16(26 + Len(tail) + Len(pad)) \o Method \o LE32(m.packed) \o LE32(m.size) \o LE32(Moment) \o <<32, 2>>
        \o LE16(m.crc) \o <<85>> \o First(es, 2) \o tail \o pad

Whole3(m, crc) ==
    LET es == Exts(m, 4, crc)
        tail == Linked(es, 4)
    IN  LE16(4) \o Method \o LE32(m.packed) \o LE32(m.size) \o LE32(Moment) \o <<32, 3>>
        \o LE16(m.crc) \o <<85>> \o LE32([hi |-> 0, lo |-> 32 + Len(tail)]) \o First(es, 4) \o tail

Written(m) ==
    CASE m.level = 0 -> Write0(m)
      [] m.level = 1 -> Write1(m)
      [] m.level = 2 -> Whole2(m, LE16(CrcFrom(0, Whole2(m, <<0, 0>>))))
      [] m.level = 3 -> Whole3(m, LE16(CrcFrom(0, Whole3(m, <<0, 0>>))))

CONSTANT Lengths                \* of names

Letters(n) == [i \in 1..n |-> 97 + (i % 26)]
Members == [level : 0..3, name : {Letters(n) : n \in Lengths}, dir : {<<>>, <<100, 255>>, <<100, 255, 101, 255>>},
            packed : {[hi |-> 0, lo |-> 0], [hi |-> 0, lo |-> 65530], [hi |-> 3, lo |-> 65535]},
            size : {[hi |-> 0, lo |-> 7], [hi |-> 65535, lo |-> 65535]}, crc : {0, 43981}, unix : BOOLEAN, other : BOOLEAN]

VARIABLES m, s, cut, at, how
vars == <<m, s, cut, at, how>>

(* a member is written; then the header is cut, or a byte of it changed *)
Init == m \in Members /\ (m.level = 0 => m.dir = <<>> /\ ~m.other) /\ s = Written(m) /\ cut = -1 /\ at = -1 /\ how = 0
Shorten == cut = -1 /\ at = -1 /\ \E k \in 1..(Len(s) - 1) : cut' = k /\ s' = SubSeq(s, 1, k) /\ UNCHANGED <<m, at, how>>
Change == /\ cut = -1 /\ at = -1
          /\ \E i \in 1..Len(s), d \in {1, 128, 255} : at' = i - 1 /\ how' = d /\ s' = [s EXCEPT ![i] = (@ + d) % 256]
          /\ UNCHANGED <<m, cut>>
Next == Shorten \/ Change
Spec == Init /\ [][Next]_vars

H == HeaderAt(s, 0, 0)
Whole1 == cut = -1 /\ at = -1
ReadBack ==
    Whole1 =>
        /\ H.st = "ok"
        /\ H.h.name = Converted(85, m.dir \o m.name) /\ H.h.method = Method /\ H.h.level = m.level
        /\ H.h.packed = m.packed /\ H.h.size = m.size /\ H.h.hascrc /\ H.h.crc = m.crc /\ H.h.hsize = Len(s)
        /\ H.h.time = (IF m.level > 1 \/ (m.level = 0 /\ m.unix) THEN UnixTime(Moment) ELSE DosTime(Stamp, 0))
        /\ (m.unix => H.h.mode = 33188 /\ H.h.gid = 513 /\ H.h.uid = 1027)
CutIsSeen == cut # -1 => H.st \in {"bad", "free"} \/ (m.level = 1 /\ cut >= s[1] + 2)
(* bytes 0 and 1 give the size, byte 20 the level; in levels 0 and 1 the     *)
(* extensions are not covered by the check                                   *)
ChangeIsSeen ==
    at # -1 /\ at \notin {0, 1, 20} => H.st \in {"bad", "free"} \/ (m.level = 1 /\ at >= s[1] + 2)
=============================================================================
