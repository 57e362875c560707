------------------------------- MODULE Archive -------------------------------
(* A reader of archives, as a state machine: it takes a header, unpacks the  *)
(* member behind it code by code, and goes on to the next header.            *)
(*   arc    the bytes of the archive                                         *)
(*   list   the headers read so far                                          *)
(*   got    for every header what its data turned out to be: [v, data], v is *)
(*            "good"     data is the content                                 *)
(*            "crc"      the content does not have the checksum announced    *)
(*            "bad"      the packed data are not legal for the method        *)
(*            "cut"      the archive ends before the packed data do          *)
(*            "unknown"  no such method                                      *)
(*            "none"     a directory or link, which has no content           *)
(*            "free"     not followed (too large)                            *)
(*   end    "" while reading, then "end", or "bad" if the archive is damaged *)
(*          beyond its last header, or "free" if the format does not say     *)
EXTENDS Header, Codec

CONSTANT Limit          \* contents larger than this are not followed

Begin(arc) == [p |-> 0, list |-> <<>>, got |-> <<>>, end |-> "", in |-> <<>>, m |-> "", r |-> [p |-> -1, n |-> 0], out |-> <<>>]

MethodOf(b) ==
    CASE b = <<45, 108, 104, 48, 45>> -> "lh0" [] b = <<45, 108, 104, 49, 45>> -> "lh1"
      [] b = <<45, 108, 104, 50, 45>> -> "lh2" [] b = <<45, 108, 104, 51, 45>> -> "lh3"
      [] b = <<45, 108, 104, 52, 45>> -> "lh4" [] b = <<45, 108, 104, 53, 45>> -> "lh5"
      [] b = <<45, 108, 104, 54, 45>> -> "lh6" [] b = <<45, 108, 104, 55, 45>> -> "lh7"
      [] b = <<45, 108, 122, 115, 45>> -> "lzs" [] b = <<45, 108, 122, 53, 45>> -> "lz5"
      [] b = <<45, 108, 122, 52, 45>> -> "lz4" [] b = <<45, 112, 109, 48, 45>> -> "pm0"
      [] b = <<45, 112, 109, 50, 45>> -> "pm2" [] b = <<45, 108, 104, 100, 45>> -> "lhd"
      [] OTHER -> "?"

(* Behind a program, the archive begins at the first place that has what a   *)
(* header has: a method, and at level 0 or 1 the checksum, at level 2 the    *)
(* attribute that is fixed.                                                  *)
SfxLooks(b, i) ==
    /\ i + 21 <= Len(b)
    /\ b[i + 3] = 45 /\ b[i + 4] \in {108, 112} /\ b[i + 7] = 45
    /\ CASE b[i + 21] \in {0, 1} -> b[i + 1] > 20 /\ i + 2 + b[i + 1] <= Len(b)
                                      /\ b[i + 2] = Sum(SubSeq(b, i + 3, i + 2 + b[i + 1]))
         [] b[i + 21] = 2 -> b[i + 1] + 256 * b[i + 2] >= 26 /\ b[i + 20] = 32
         [] OTHER -> FALSE
SfxPlaces(b) == {i \in 0..(Len(b) - 21) : SfxLooks(b, i)}
(* the reader at that place; whatever is read if there is none *)
SfxBehind(b, x) == IF SfxPlaces(b) = {} THEN [x EXCEPT !.end = "free"]
                ELSE [x EXCEPT !.p = CHOOSE i \in SfxPlaces(b) : \A j \in SfxPlaces(b) : i <= j]

Last1(x) == x.list[Len(x.list)]
Idle(x) == x.end = "" /\ x.m = ""
Busy(x) == x.m # ""

(* the member that was begun turns out to be v *)
Closed(x, v) ==
    [x EXCEPT !.got = Append(@, [v |-> v, data |-> IF v \in {"good", "crc"} THEN x.out ELSE <<>>]),
              !.m = "", !.r = [p |-> -1, n |-> 0], !.out = <<>>, !.in = <<>>]

TakeHeader(arc, tz, x) ==
    LET g == HeaderAt(arc, x.p, tz)
    IN  IF g.st # "ok" THEN [x EXCEPT !.end = g.st]
        ELSE LET h == g.h
                 from == x.p + h.hsize
                 y == [x EXCEPT !.list = Append(@, h)]
                 m == MethodOf(h.method)
             IN  IF ~Small(h.packed) \/ from + Num(h.packed) > Len(arc)
                 THEN [Closed(y, "cut") EXCEPT !.end = "bad"]
                 ELSE LET z == [y EXCEPT !.p = from + Num(h.packed)]
                      IN  IF m = "?" THEN Closed(z, "unknown")
                          ELSE IF FileType(h.mode) \in {4, 10} \/ m = "lhd" THEN Closed(z, "none")
                          ELSE IF FileType(h.mode) # 8 \/ ~Small(h.size) THEN Closed(z, "free")
                          ELSE IF Num(h.size) > Limit THEN Closed(z, "free")
                          ELSE [z EXCEPT !.m = m, !.in = SubSeq(arc, from + 1, z.p), !.r = Start(m)]

RECURSIVE CopyBack(_, _, _, _)
(* out with n more bytes from off places back *)
CopyBack(m, out, n, off) ==
    IF n = 0 THEN out
    ELSE LET i == Len(out) - off
         IN  CopyBack(m, Append(out, IF i >= 0 THEN out[i + 1] ELSE Before(m, i)), n - 1, off)

(* one more step of unpacking *)
Unpack(x) ==
    LET h == Last1(x)
        size == Num(h.size)
        o == Len(x.out)
    IN  IF x.m \in Stored
        THEN IF Len(x.in) # size THEN Closed(x, "bad")
             ELSE LET y == [x EXCEPT !.out = x.in]
                  IN  Closed(y, IF ~h.hascrc \/ Crc(x.in) = h.crc THEN "good" ELSE "crc")
        ELSE IF o = size
        THEN IF (IF size = 0 THEN 0 ELSE Used(x.r.p)) # Len(x.in) THEN Closed(x, "bad")
             ELSE Closed(x, IF ~h.hascrc \/ Crc(x.out) = h.crc THEN "good" ELSE "crc")
        ELSE IF Due(x.m, x.r, o)
        THEN LET g == HeadOf(x.m, x.in, x.r) IN IF g.ok THEN [x EXCEPT !.r = g.r] ELSE Closed(x, "bad")
        ELSE LET t == CodeAt(x.m, x.in, x.r, o)
             IN  IF ~t.ok THEN Closed(x, "bad")
                 ELSE IF o + t.len > size THEN Closed(x, "bad")
                 ELSE LET out == IF t.lit THEN Append(x.out, t.byte) ELSE CopyBack(x.m, x.out, t.len, t.off)
                      IN  [x EXCEPT !.out = out,
                                    !.r = IF x.m = "pm2" THEN Pm2Wrote(t.r, SubSeq(out, o + 1, o + t.len)) ELSE t.r]

Advance(arc, tz, x) == IF Busy(x) THEN Unpack(x) ELSE TakeHeader(arc, tz, x)
Ended(x) == x.end # ""
=============================================================================
