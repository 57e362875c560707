------------------------------- MODULE Header -------------------------------
(* The meaning of member headers, levels 0 to 3.                             *)
(*                                                                           *)
(* HeaderAt(s, p, tz) reads the header that begins after p bytes of archive  *)
(* s.  Its st is                                                             *)
(*   "end"    there is none: the archive ends here                           *)
(*   "bad"    there is one, and it is damaged or cut off                     *)
(*   "free"   the format does not say what it means; a reader may refuse it  *)
(*   "ok"     h is the header                                                *)
(* Numbers of 32 bits are kept as [hi, lo], moments as [day, sec] since      *)
(* 1970; tz is how many seconds local time is ahead (MS-DOS stamps).         *)
EXTENDS Integers, Sequences, SequencesExt, Crc16

U8(s, i) == s[i + 1]
U16(s, i) == s[i + 1] + 256 * s[i + 2]
U32(s, i) == [lo |-> U16(s, i), hi |-> U16(s, i + 2)]

(* numbers that are not out of all proportion *)
Small(n) == n.hi < 4096
Num(n) == n.hi * 65536 + n.lo

Minus(n, k) ==              \* k < 65536; hi < 0 if the result is negative
    IF n.lo >= k THEN [n EXCEPT !.lo = @ - k]
    ELSE [hi |-> n.hi - 1, lo |-> n.lo + 65536 - k]

(*------------------------------- moments -----------------------------------*)
AnyTime == [day |-> -1, sec |-> -1]

UnixTime(n) ==              \* 86400 = 128 * 675
    LET x == n.hi * 512 + n.lo \div 128
    IN  [day |-> x \div 675, sec |-> (x % 675) * 128 + (n.lo % 128)]

Leap(y) == y % 4 = 0 /\ y # 2100
MonthDays == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysIn(y, m) == MonthDays[m] + IF m = 2 /\ Leap(y) THEN 1 ELSE 0
Before1st == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayOf(y, m, d) ==
    365 * (y - 1970) + (y - 1969) \div 4 - (IF y > 2100 THEN 1 ELSE 0)
    + Before1st[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1

Earlier(t, k) ==            \* k seconds earlier, |k| <= 86400
    LET s == t.sec - k
    IN  IF s < 0 THEN [day |-> t.day - 1, sec |-> s + 86400]
        ELSE IF s >= 86400 THEN [day |-> t.day + 1, sec |-> s - 86400]
        ELSE [day |-> t.day, sec |-> s]

DosTime(n, tz) ==
    LET y == n.hi \div 512 + 1980
        m == (n.hi \div 32) % 16
        d == n.hi % 32
        h == n.lo \div 2048
        mi == (n.lo \div 32) % 64
        s == 2 * (n.lo % 32)
    IN  IF m \notin 1..12 THEN AnyTime
        ELSE IF d < 1 \/ d > DaysIn(y, m) \/ h > 23 \/ mi > 59 \/ s > 59 THEN AnyTime
        ELSE Earlier([day |-> DayOf(y, m, d), sec |-> 3600 * h + 60 * mi + s], tz)

(* FILETIME: tenths of microseconds since 1601, 8 bytes, least significant first *)
WinEpoch == <<1, 157, 177, 222, 213, 62, 128, 0>>
Divided(x, k) ==            \* by k < 8000000, most significant byte first
    FoldLeft(LAMBDA a, b : LET t == a.rem * 256 + b
                           IN [q |-> Append(a.q, t \div k), rem |-> t % k],
             [q |-> <<>>, rem |-> 0], x).q
WinTime(d) ==
    LET x == Reverse(d)
        sub == FoldLeft(LAMBDA a, i : LET t == x[i] - WinEpoch[i] - a.borrow
                                      IN [borrow |-> IF t < 0 THEN 1 ELSE 0, out |-> <<t % 256>> \o a.out],
                        [borrow |-> 0, out |-> <<>>], <<8, 7, 6, 5, 4, 3, 2, 1>>)
        q == Divided(Divided(sub.out, 2000), 5000)
    IN  IF sub.borrow = 1 \/ q[1] + q[2] + q[3] + q[4] > 0 THEN AnyTime
        ELSE UnixTime([hi |-> q[5] * 256 + q[6], lo |-> q[7] * 256 + q[8]])

(*-------------------------------- names ------------------------------------*)
UpTo0(b) == IF \E i \in 1..Len(b) : b[i] = 0
            THEN SubSeq(b, 1, (CHOOSE i \in 1..Len(b) : b[i] = 0 /\ \A j \in 1..(i - 1) : b[j] # 0) - 1)
            ELSE b

Slash == 47
Mac == 109
Amiga == 65
UnixOS == 85
(* 0xFF and \ separate the parts of a path, on the Mac / and : change places *)
Delim(os, c) ==
    CASE c = 255 \/ c = 92 -> Slash
      [] os = Mac /\ c = 47 -> 58
      [] os = Mac /\ c = 58 -> 47
      [] OTHER -> c
Converted(os, b) == FoldLeft(LAMBDA a, c : Append(a, Delim(os, c)), <<>>, b)

(* systems whose names are in capitals anyway: all but Human68k, OS-9/68000,  *)
(* XOSK, Unix, Java, Mac and Amiga. If asked to, the reader turns a name that *)
(* is all capitals to small letters.                                          *)
Capitals(os) == os \notin {72, 75, 88, 85, 74, 109, 65}
SmallIn(b) == \E i \in 1..Len(b) : b[i] \in 97..122
ToSmall(b) == FoldLeft(LAMBDA a, c : Append(a, IF c \in 65..90 THEN c + 32 ELSE c), <<>>, b)
Lowered(h) == IF Capitals(h.os) /\ ~SmallIn(h.name) /\ ~SmallIn(h.real)
              THEN [h EXCEPT !.name = ToSmall(@), !.real = ToSmall(@)] ELSE h

(*--------------------------- extension headers -----------------------------*)
MinSize(t) == CASE t = 0 -> 2 [] t = 64 -> 2 [] t = 65 -> 24 [] t = 80 -> 2 [] t = 81 -> 4 [] t = 84 -> 4
                [] OTHER -> 0

RECURSIVE Chain(_, _, _, _, _)
(* the extensions from offset p; n is the size of the first, w the width of sizes *)
Chain(s, p, n, w, acc) ==
    IF n = 0 THEN [st |-> "ok", p |-> p, exts |-> acc]
    ELSE IF n < 1 + w \/ p + n > Len(s) THEN [st |-> "bad", p |-> p, exts |-> acc]
    ELSE LET t == U8(s, p)
             d == SubSeq(s, p + 2, p + n - w)
             next == IF w = 2 THEN U16(s, p + n - 2)
                     ELSE LET x == U32(s, p + n - 4) IN IF Small(x) THEN Num(x) ELSE Len(s) + 1
         IN  IF Len(d) < MinSize(t) THEN [st |-> "bad", p |-> p, exts |-> acc]
             ELSE IF n > 4096 \/ t = 66 THEN [st |-> "free", p |-> p, exts |-> acc]
             ELSE Chain(s, p + n, next, w, Append(acc, [t |-> t, d |-> d, at |-> p]))

Apply(h, e) ==
    CASE e.t = 1 -> [h EXCEPT !.name = e.d]
      [] e.t = 2 -> [h EXCEPT !.dir = e.d]
      [] e.t = 64 -> [h EXCEPT !.attr = e.d[1]]
      [] e.t = 65 -> IF h.level = 1 THEN [h EXCEPT !.time = WinTime(SubSeq(e.d, 9, 16))] ELSE h
      [] e.t = 80 -> [h EXCEPT !.mode = U16(e.d, 0)]
      [] e.t = 81 -> [h EXCEPT !.gid = U16(e.d, 0), !.uid = U16(e.d, 2)]
      [] e.t = 82 -> [h EXCEPT !.group = UpTo0(e.d)]
      [] e.t = 83 -> [h EXCEPT !.user = UpTo0(e.d)]
      [] e.t = 84 -> [h EXCEPT !.time = UnixTime(U32(e.d, 0))]
      [] OTHER -> h

(*------------------------------- headers -----------------------------------*)
No(st) == [st |-> st]

Common(s, p) ==
    [level |-> U8(s, p + 20), os |-> 0, method |-> SubSeq(s, p + 3, p + 7), packed |-> U32(s, p + 7),
     size |-> U32(s, p + 11), time |-> AnyTime, attr |-> U8(s, p + 19), name |-> <<>>, dir |-> <<>>, real |-> <<>>,
     hascrc |-> TRUE, crc |-> 0, mode |-> 33206, uid |-> 0, gid |-> 0, user |-> <<>>, group |-> <<>>, hsize |-> 0]

Sum(b) == FoldLeft(LAMBDA a, c : (a + c) % 256, 0, b)

Level0(s, p, tz) ==
    LET total == U8(s, p) + 2
    IN  IF total <= 21 \/ p + total > Len(s) THEN No("bad")
        ELSE IF Sum(SubSeq(s, p + 3, p + total)) # U8(s, p + 1) THEN No("bad")
        ELSE LET nl == U8(s, p + 21)
                 ext == total - nl - 24
                 h == [Common(s, p) EXCEPT !.time = DosTime(U32(s, p + 15), tz), !.hsize = total,
                                           !.name = SubSeq(s, p + 23, p + 22 + nl)]
                 e == p + 24 + nl
                 hc == [h EXCEPT !.crc = U16(s, e - 2)]
             IN  IF ext = -2 THEN [st |-> "ok", h |-> [h EXCEPT !.hascrc = FALSE]]
                 ELSE IF ext < 0 THEN No("bad")
                 ELSE IF ext = 0 THEN [st |-> "ok", h |-> hc]
                 ELSE IF U8(s, e) # UnixOS THEN [st |-> "ok", h |-> [hc EXCEPT !.os = U8(s, e)]]
                 ELSE IF ext < 12 THEN [st |-> "ok", h |-> hc]
                 ELSE [st |-> "ok", h |-> [hc EXCEPT !.os = UnixOS, !.time = UnixTime(U32(s, e + 2)),
                                                     !.mode = U16(s, e + 6), !.uid = U16(s, e + 8), !.gid = U16(s, e + 10)]]

Level1(s, p, tz) ==
    LET total == U8(s, p) + 2
    IN  IF total <= 21 \/ p + total > Len(s) THEN No("bad")
        ELSE IF Sum(SubSeq(s, p + 3, p + total)) # U8(s, p + 1) THEN No("bad")
        ELSE LET nl == U8(s, p + 21)
             IN  IF total - nl - 27 < 0 THEN No("bad")
                 ELSE LET c == Chain(s, p + total, U16(s, p + total - 2), 2, <<>>)
                      IN  IF c.st # "ok" THEN No(c.st)
                          ELSE IF c.p - p - total > 60000 THEN No("free")
                          ELSE LET h == [Common(s, p) EXCEPT !.time = DosTime(U32(s, p + 15), tz), !.hsize = c.p - p,
                                              !.name = SubSeq(s, p + 23, p + 22 + nl), !.crc = U16(s, p + 22 + nl),
                                              !.os = U8(s, p + 24 + nl), !.packed = Minus(@, c.p - p - total)]
                               IN  IF h.packed.hi < 0 THEN No("bad") ELSE [st |-> "ok", h |-> FoldLeft(Apply, h, c.exts)]

(* the CRC of a header, where its own field counts as 0 *)
HeadCrc(s, p, q, at) ==
    CrcFrom(CrcFrom(CrcFrom(0, SubSeq(s, p + 1, at + 1)), <<0, 0>>), SubSeq(s, at + 4, q))

CrcExts(c) == SelectSeq(c.exts, LAMBDA e : e.t = 0)

(* levels 2 and 3: from p to q, with the chain c of extensions *)
Whole(s, p, q, c) ==
    LET x == CrcExts(c)
        h == [Common(s, p) EXCEPT !.time = UnixTime(U32(s, p + 15)), !.hsize = q - p,
                                  !.crc = U16(s, p + 21), !.os = U8(s, p + 23)]
    IN  IF Len(x) # 1 THEN No("free")
        ELSE IF HeadCrc(s, p, q, x[1].at) # U16(x[1].d, 0) THEN No("bad")
        ELSE [st |-> "ok", h |-> FoldLeft(Apply, h, c.exts)]

Level2(s, p) ==
    LET total == U16(s, p)
    IN  IF total < 26 \/ p + 26 > Len(s) THEN No("bad")
        ELSE LET c == Chain(s, p + 26, U16(s, p + 24), 2, <<>>)
             IN  IF c.st # "ok" THEN No(c.st)
                 ELSE IF p + total - c.p \notin {0, 1} \/ p + total > Len(s) THEN No("bad")
                 ELSE Whole(s, p, p + total, c)

Level3(s, p) ==
    IF U16(s, p) # 4 \/ p + 32 > Len(s) THEN No("bad")
    ELSE LET n == U32(s, p + 28)
             c == Chain(s, p + 32, IF Small(n) THEN Num(n) ELSE Len(s) + 1, 4, <<>>)
         IN  IF c.st # "ok" THEN No(c.st)
             ELSE IF ~Small(U32(s, p + 24)) \/ p + Num(U32(s, p + 24)) # c.p THEN No("bad")
             ELSE Whole(s, p, c.p, c)

FileType(mode) == mode \div 4096        \* 4 directory, 8 regular, 10 symbolic link

(* directory part, separators, symbolic links *)
Named(h) ==
    LET raw == UpTo0(IF h.dir = <<>> THEN h.name ELSE h.dir \o UpTo0(h.name))
        name == Converted(h.os, raw)
        bar == {i \in 1..Len(name) : name[i] = 124}
        b == CHOOSE i \in bar : \A j \in bar : i <= j
        h1 == IF h.os = Amiga /\ raw # <<>> /\ h.method = <<45, 108, 104, 48, 45>>
              THEN IF raw[Len(raw)] = 255 THEN [h EXCEPT !.method = <<45, 108, 104, 100, 45>>] ELSE h
              ELSE h
    IN  IF FileType(h.mode) = 10
        THEN IF bar = {} THEN No("bad")
             ELSE [st |-> "ok", h |-> [h1 EXCEPT !.name = SubSeq(name, 1, b - 1), !.real = SubSeq(name, b + 1, Len(name))]]
        ELSE IF FileType(h.mode) > 10 THEN No("free")
        ELSE [st |-> "ok", h |-> [h1 EXCEPT !.name = name]]

HeaderAt(s, p, tz) ==
    IF p >= Len(s) THEN No("end")
    ELSE IF U8(s, p) = 0 THEN No("end")
    ELSE IF p + 21 > Len(s) THEN No("bad")
    ELSE LET l == U8(s, p + 20)
             x == CASE l = 0 -> Level0(s, p, tz)
                    [] l = 1 -> Level1(s, p, tz)
                    [] l = 2 -> Level2(s, p)
                    [] l = 3 -> Level3(s, p)
                    [] OTHER -> No("bad")
         IN  IF x.st = "ok" THEN Named(x.h) ELSE x
=============================================================================
