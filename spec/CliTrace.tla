------------------------------ MODULE CliTrace ------------------------------
(* Judges what the command said about archives (IOEnv.CASES): the exit       *)
(* status, and what it printed.  A case has                                  *)
(*   id, arc, tz, there (there is an archive of that name)                   *)
(*   obs     what was done with it, each                                     *)
(*     cmd   "l", "lv" (listing), "t" (test), "p" (print)                    *)
(*     v     with -v: names on lines of their own, and header levels         *)
(*     full  what it prints cannot be written                                *)
(*     fail  how it broke off; exit: its exit status; out: what it printed   *)
(* Kinds of disagreement:                                                    *)
(*   crash    it broke off                                                   *)
(*   status   the exit status does not tell what happened                    *)
(*   listing  the listing is not what the archive holds                      *)
(*   total    nor are its totals                                             *)
(*   printed  other bytes were printed than the members' contents            *)
EXTENDS Archive, Json, IOUtils, TLC

CONSTANT Judge

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, x, oi, bad, step
vars == <<ci, x, oi, bad, step>>

K == Cases[ci]
B == K.obs[oi]
More == bad = "" /\ ci <= Len(Cases)
Counts(w) == w # "" /\ \E k \in Judge : Len(w) > Len(k) /\ SubSeq(w, 1, Len(k)) = k

Init == ci = 1 /\ x = Begin(<<>>) /\ oi = 1 /\ bad = "" /\ step = 0 /\ TLCSet(1, 1)

Reading == More /\ ~Ended(x) /\ (\E y \in {Advance(K.arc, K.tz, x)} : x' = y) /\ UNCHANGED <<ci, oi, bad>>

(*------------------------------- the archive -------------------------------*)
N == Len(x.list)
AllSound == x.end = "end" /\ \A i \in 1..N : x.got[i].v \in {"good", "none"}
AnyBad == x.end = "bad" \/ \E i \in 1..N : x.got[i].v \in {"crc", "cut", "unknown"}
Regular(h) == FileType(h.mode) = 8 /\ MethodOf(h.method) # "lhd"

(*---------------------------------- text -----------------------------------*)
(* the lines of b, each ended by a newline; what follows the last one is lost *)
Lines(b) ==
    FoldLeft(LAMBDA a, c : IF c = 10 THEN [done |-> Append(a.done, a.cur), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(@, c)],
             [done |-> <<>>, cur |-> <<>>], b).done
(* the words of b; zero bytes do not count *)
Words(b) ==
    LET r == FoldLeft(LAMBDA a, c : IF c = 0 THEN a
                                    ELSE IF c # 32 THEN [a EXCEPT !.cur = Append(@, c)]
                                    ELSE IF a.cur = <<>> THEN a
                                    ELSE [done |-> Append(a.done, a.cur), cur |-> <<>>],
                      [done |-> <<>>, cur |-> <<>>], b)
    IN  IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex4(n) == <<HexDigit(n \div 4096), HexDigit((n \div 256) % 16), HexDigit((n \div 16) % 16), HexDigit(n % 16)>>

Stars(w) == w # <<>> /\ \A i \in DOMAIN w : w[i] = 42
Percent(w) == w # <<>> /\ w[Len(w)] = 37
IsRatio(w) == Percent(w) \/ (Stars(w) /\ Len(w) = 6)
(* tenths of a percent *)
Tenths(w) == FoldLeft(LAMBDA a, c : IF c \in 48..57 THEN a * 10 + c - 48 ELSE a, 0, w)
RatioFits(w, packed, size) ==
    IF size = 0 THEN Stars(w)
    ELSE /\ Percent(w) /\ Len(w) >= 4 /\ w[Len(w) - 2] = 46
         /\ (packed < 100000 /\ size < 100000 =>
                LET d == Tenths(w) * size - 1000 * packed IN d <= size /\ -d <= size)

(*-------------------------------- the listing ------------------------------*)
Arrow == <<32, 45, 62, 32>>
Shown(h) == IF FileType(h.mode) = 10 THEN h.name \o Arrow \o h.real ELSE h.name

Bit1(mode, b) == (mode \div b) % 2 = 1
Letter(mode, b, c) == IF Bit1(mode, b) THEN c ELSE 45
Letter2(mode, b, c, b2, c2) == IF Bit1(mode, b) THEN c ELSE Letter(mode, b2, c2)
Permissions(m) ==
    <<CASE FileType(m) = 4 -> 100 [] FileType(m) = 10 -> 108 [] OTHER -> 45,
      Letter(m, 256, 114), Letter(m, 128, 119), Letter2(m, 2048, 115, 64, 120),
      Letter(m, 32, 114), Letter(m, 16, 119), Letter2(m, 1024, 115, 8, 120),
      Letter(m, 4, 114), Letter(m, 2, 119), Letter2(m, 512, 116, 1, 120)>>

(* w are the words about h, but for its name *)
InfoWrong(w, h) ==
    IF ~\E i \in DOMAIN w : IsRatio(w[i]) THEN "listing: no sizes"
    ELSE LET r == CHOOSE i \in DOMAIN w : IsRatio(w[i]) /\ \A j \in (i + 1)..Len(w) : ~IsRatio(w[j])
             lv == B.cmd = "lv"
         IN  IF r < 4 THEN (IF r < (IF lv THEN 3 ELSE 2) THEN "listing: no sizes" ELSE
                            IF w[r - 1] # Dec(Num(h.size)) \/ (lv /\ w[r - 2] # Dec(Num(h.packed))) THEN "listing: another size" ELSE "")
             ELSE IF w[r - 1] # Dec(Num(h.size)) THEN "listing: another size"
             ELSE IF lv /\ w[r - 2] # Dec(Num(h.packed)) THEN "listing: another packed size"
             ELSE IF ~RatioFits(w[r], Num(h.packed), Num(h.size)) THEN "listing: another ratio"
             ELSE IF lv /\ (Len(w) < r + 2 \/ w[r + 1] # h.method) THEN "listing: another method"
             ELSE IF lv /\ h.hascrc /\ w[r + 2] # Hex4(h.crc) THEN "listing: another checksum"
             ELSE IF h.os = 85 /\ FileType(h.mode) \in {4, 8, 10} /\ w[1] # Permissions(h.mode) THEN "listing: other permissions"
             ELSE IF h.os = 85 /\ h.user = <<>> /\ h.group = <<>> /\ w[2] # Dec(h.uid) \o <<47>> \o Dec(h.gid) THEN "listing: another owner"
             ELSE ""

EndsWith(b, e) == Len(b) >= Len(e) /\ SubSeq(b, Len(b) - Len(e) + 1, Len(b)) = e

LineWrong(l, h) ==
    LET e == <<32>> \o Shown(h)
    IN  IF ~EndsWith(l, e) THEN "listing: another name"
        ELSE InfoWrong(Words(SubSeq(l, 1, Len(l) - Len(e))), h)

PairWrong(l1, l2, h) ==
    IF l1 # Shown(h) THEN "listing: another name"
    ELSE LET w == Words(l2)
         IN  IF w = <<>> \/ Last(w) # <<91>> \o Dec(h.level) \o <<93>> THEN "listing: another header level"
             ELSE InfoWrong(Front(w), h)

Added(f(_)) == FoldLeft(LAMBDA a, i : a + f(i), 0, [i \in 1..N |-> i])
TotalWord == <<84, 111, 116, 97, 108>>
TotalWrong(l) ==
    LET w == Words(l)
        packed == Added(LAMBDA i : Num(x.list[i].packed))
        size == Added(LAMBDA i : Num(x.list[i].size))
        want == <<TotalWord, Dec(N)>>
    IN  IF Len(w) # (IF B.cmd = "lv" THEN 6 ELSE 5) \/ w[1] # TotalWord THEN "total: not there"
        ELSE IF w[2] # Dec(N) THEN "total: another number of files"
        ELSE IF w[Len(w) - 1] # Dec(size) THEN "total: another size"
        ELSE IF B.cmd = "lv" /\ w[Len(w) - 2] # Dec(packed) THEN "total: another packed size"
        ELSE IF ~RatioFits(w[Len(w)], packed, size) THEN "total: another ratio"
        ELSE ""

ListingWrong ==
    LET ls == Lines(B.out)
        k == IF B.v THEN 2 ELSE 1
        wrong(i) == IF B.v THEN PairWrong(ls[2 + 2 * i - 1], ls[2 + 2 * i], x.list[i]) ELSE LineWrong(ls[2 + i], x.list[i])
    IN  IF Len(ls) # 4 + k * N THEN "listing: not one entry for every member"
        ELSE IF \E i \in 1..N : wrong(i) # "" THEN wrong(CHOOSE i \in 1..N : wrong(i) # "")
        ELSE TotalWrong(ls[Len(ls)])

(*--------------------------------- printing --------------------------------*)
Rule == <<58, 58, 58, 58, 58, 58, 58, 58, 10>>
Printed == FoldLeft(LAMBDA a, i : IF ~Regular(x.list[i]) THEN a
                                  ELSE a \o Rule \o x.list[i].name \o <<10>> \o Rule \o x.got[i].data,
                    <<>>, [i \in 1..N |-> i])

Occurs(e, b) == \E i \in 0..(Len(b) - Len(e)) : SubSeq(b, i + 1, i + Len(e)) = e

(*--------------------------------- judging ---------------------------------*)
Wrong ==
    IF B.fail # "" THEN "crash: " \o B.fail
    ELSE IF ~K.there THEN (IF B.exit = 0 THEN "status: there is no archive" ELSE "")
    ELSE IF B.cmd \in {"l", "lv"} THEN
        IF x.end = "end" /\ B.exit # 0 THEN "status: a sound archive is refused"
        ELSE IF x.end = "bad" /\ B.exit = 0 THEN "status: a damaged archive is accepted"
        ELSE IF x.end = "end" THEN ListingWrong
        ELSE ""
    ELSE IF B.full THEN (IF AllSound /\ B.exit = 0 /\ \E i \in 1..N : x.got[i].data # <<>> THEN "status: what was printed is lost" ELSE "")
    ELSE IF AllSound /\ B.exit # 0 THEN "status: a sound archive is refused"
    ELSE IF AnyBad /\ B.exit = 0 THEN "status: a damaged archive is accepted"
    ELSE IF AllSound /\ B.cmd = "p" /\ B.out # Printed THEN "printed: other bytes than the contents"
    ELSE IF AllSound /\ B.cmd = "t" /\ \E i \in 1..N : Len(x.got[i].data) > 9 /\ Occurs(x.got[i].data, B.out) THEN "printed: by a test"
    ELSE ""

JudgeOne ==
    /\ More /\ Ended(x) /\ oi <= Len(K.obs)
    /\ (\E w \in {Wrong} : IF Counts(w) THEN bad' = w /\ UNCHANGED oi ELSE oi' = oi + 1 /\ UNCHANGED bad)
    /\ UNCHANGED <<ci, x>>

NextCase ==
    /\ More /\ Ended(x) /\ oi > Len(K.obs)
    /\ ci' = ci + 1 /\ x' = Begin(<<>>) /\ oi' = 1 /\ TLCSet(1, ci + 1)
    /\ UNCHANGED bad

Next == (Reading \/ JudgeOne \/ NextCase) /\ step' = step + 1
Spec == Init /\ [][Next]_vars

View == <<ci, step, bad>>
NoBad == bad = "" \/ (PrintT("BAD|" \o K.id \o "|" \o bad) /\ FALSE)
AllRead == TLCGet(1) = Len(Cases) + 1
Alias == [case |-> IF ci <= Len(Cases) THEN K.id ELSE "", cmd |-> IF ci <= Len(Cases) /\ oi \in DOMAIN K.obs THEN B.cmd ELSE "", end |-> x.end, bad |-> bad]
=============================================================================
