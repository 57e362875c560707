---------------------------- MODULE ArchiveTrace ----------------------------
(* Judges what the implementation made of archives (IOEnv.CASES) by what the *)
(* reader of Archive makes of them.  A case has                              *)
(*   id     names it in reports                                              *)
(*   arc    the archive                                                      *)
(*   tz     seconds that local time was ahead                                *)
(*   lower  names in capitals are to be converted                            *)
(*   sfx    arc is a program with the archive behind it                      *)
(*   obs    what was observed, one record for every operation:               *)
(*          op    "headers" listing that verifies                            *)
(*                "list"    listing that does not                            *)
(*                "test"    verification of all                              *)
(*                "bytes"   extraction of member name to memory              *)
(*                "dec"     extraction of member name to a file              *)
(*                "extract" extraction of all to files                       *)
(*          fail  "" if the operation came to an end, else how it failed     *)
(*          err   it reported an error                                       *)
(*          heads the headers it returned                                    *)
(*          name, data  the member asked for and what was got                *)
(*          files the files that were there afterwards, [name, data]         *)
(* Kinds of disagreement:                                                    *)
(*   crash    the operation did not come to an end in order                  *)
(*   listed   a sound header was returned otherwise, or not at all           *)
(*   header   a damaged header was accepted                                  *)
(*   cut      an archive cut short was accepted                              *)
(*   corrupt  content without the checksum announced was accepted            *)
(*   intact   something was wrong with a sound member or archive             *)
(*   content  other bytes than the content were delivered as good            *)
(*   bound    more bytes came out than the header announces                  *)
(*   harness  the case is not what its maker says                            *)
EXTENDS Archive, FiniteSets, Json, IOUtils, TLC

CONSTANT Judge

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, x, oi, bad, step
vars == <<ci, x, oi, bad, step>>

K == Cases[ci]
More == bad = "" /\ ci <= Len(Cases)

Init == ci = 1 /\ x = Begin(<<>>) /\ oi = 1 /\ bad = "" /\ step = 0 /\ TLCSet(1, 1)

Cased(y) == IF K.lower /\ Len(y.list) > Len(x.list) THEN [y EXCEPT !.list[Len(y.list)] = Lowered(@)] ELSE y

(* behind a program the archive is looked for first *)
SfxFrom == IF K.sfx /\ x = Begin(<<>>) THEN SfxBehind(K.arc, x) ELSE x
Read == /\ More /\ ~Ended(x)
        /\ (\E f \in {SfxFrom} : \E y \in {IF Ended(f) THEN f ELSE Advance(K.arc, K.tz, f)} : x' = Cased(y))
        /\ UNCHANGED <<ci, oi, bad>>

(*------------------------------ expectations -------------------------------*)
N == Len(x.list)
Sound == {"good", "none"}
(* the members up to the first whose data or header are not sound *)
FirstBad == IF \E i \in 1..N : x.got[i].v \notin Sound
            THEN CHOOSE i \in 1..N : x.got[i].v \notin Sound /\ \A j \in 1..(i - 1) : x.got[j].v \in Sound
            ELSE N + 1
AllSound == FirstBad = N + 1 /\ x.end = "end"
(* must an operation that verifies all members report an error? *)
MustFail == \/ x.end = "bad"
            \/ FirstBad <= N /\ x.got[FirstBad].v \in {"crc", "cut", "unknown"}
            \/ \E i \in 1..N : x.got[i].v \in {"crc", "unknown"}
Failing == IF x.end = "bad" THEN (IF N > 0 /\ x.got[N].v = "cut" THEN "cut" ELSE K.damage) ELSE "corrupt"

SameTime(a, b) == a = b \/ b = AnyTime
(* header g as the implementation returned it is header h *)
Same(g, h) ==
    /\ g.level = h.level /\ g.os = h.os /\ g.method = h.method /\ g.packed = h.packed /\ g.size = h.size
    /\ g.name = h.name /\ (FileType(h.mode) = 10 => g.real = h.real)
    /\ g.hascrc = h.hascrc /\ (h.hascrc => g.crc = h.crc) /\ SameTime(g.time, h.time)
    /\ g.mode = h.mode /\ g.uid = h.uid /\ g.gid = h.gid /\ g.user = h.user /\ g.group = h.group
    /\ g.attr = h.attr /\ g.hsize = h.hsize

(* what is wrong with the headers gs: all of the first n, and at most one more *)
HeadsWrong(gs, n) ==
    LET m == IF Len(gs) < N THEN Len(gs) ELSE N
    IN  IF \E i \in 1..m : ~Same(gs[i], x.list[i]) THEN "listed: not the header that was written"
        ELSE IF Len(gs) < n THEN "listed: a member is missing"
        ELSE IF x.end # "free" /\ Len(gs) > N THEN "listed: a member that is not there"
        ELSE IF x.end # "free" /\ Len(gs) > n + 1 /\ x.got[n + 1].v \in {"crc", "cut", "unknown"} THEN "listed: members beyond the damage"
        ELSE ""

HeadersWrong(b) ==
    LET w == HeadsWrong(b.heads, IF FirstBad <= N THEN FirstBad - 1 ELSE N)
    IN  IF w # "" THEN w
        ELSE IF AllSound /\ b.err THEN "intact: a sound archive is reported as damaged"
        ELSE IF MustFail /\ ~b.err THEN Failing \o ": not reported"
        ELSE ""

ListWrong(b) ==
    IF x.end = "end" /\ b.err THEN "intact: a sound archive is reported as damaged"
    ELSE IF x.end = "bad" /\ ~b.err THEN Failing \o ": not reported"
    ELSE ""

TestWrong(b) ==
    IF AllSound /\ b.err THEN "intact: a sound archive is reported as damaged"
    ELSE IF MustFail /\ ~b.err THEN Failing \o ": not reported"
    ELSE ""

(* how many bytes may come out: what the header announces, or, where that is  *)
(* reported as an error, one match of 256 bytes more at most                 *)
Most(h, err) == Num(h.size) + (IF err THEN 256 ELSE 0)

(* data delivered for member i, with or without an error *)
DataWrong(i, err, data) ==
    LET v == x.got[i].v
        h == x.list[i]
    IN  IF Small(h.size) /\ Len(data) > Most(h, err) THEN "bound: more bytes than announced"
        ELSE IF v = "good" THEN
            IF data # x.got[i].data THEN (IF err THEN "intact: a sound member is not delivered" ELSE "content: other bytes")
            ELSE IF err /\ x.end = "end" THEN "intact: a sound member is reported as damaged"
            ELSE ""
        ELSE IF v \in {"crc", "unknown", "cut"} /\ ~err THEN (IF v = "cut" THEN "cut" ELSE "corrupt") \o ": delivered as good"
        ELSE IF v \in {"bad", "free"} /\ ~err /\ h.hascrc /\ Crc(data) # h.crc THEN "corrupt: delivered as good"
        ELSE IF v \in {"bad", "free"} /\ ~err /\ Small(h.size) /\ Len(data) # Num(h.size) THEN "corrupt: of another size"
        ELSE ""

Where(name) == {i \in 1..N : x.list[i].name = name}

BytesWrong(b) ==
    IF Cardinality(Where(b.name)) > 1 THEN ""
    ELSE IF Where(b.name) = {} THEN IF x.end # "free" /\ ~b.err THEN "listed: delivered what is not there" ELSE ""
    ELSE LET i == CHOOSE j \in Where(b.name) : TRUE
         IN  IF x.got[i].v = "none" THEN "" ELSE DataWrong(i, b.err, b.data)

(* a file [name, data] that was found after extraction of all *)
FileOf(b, name) == {f \in ToSet(b.files) : f.name = name}
ExtractWrong(b) ==
    IF AllSound /\ b.err THEN "intact: a sound archive is reported as damaged"
    ELSE IF MustFail /\ ~b.err THEN Failing \o ": not reported"
    ELSE LET stop == IF FirstBad <= N THEN FirstBad - 1 ELSE N
             lost == {i \in 1..stop : x.got[i].v = "good" /\ Cardinality(Where(x.list[i].name)) = 1
                                       /\ ~\E f \in FileOf(b, x.list[i].name) : f.data = x.got[i].data}
             over == {i \in 1..N : Small(x.list[i].size) /\ Cardinality(Where(x.list[i].name)) = 1 /\ \E f \in FileOf(b, x.list[i].name) : Len(f.data) > Most(x.list[i], b.err)}
         IN  IF lost # {} THEN "intact: a sound member is not delivered"
             ELSE IF over # {} THEN "bound: more bytes than announced"
             ELSE ""

Wrong(b) ==
    IF b.fail # "" THEN "crash: " \o b.fail
    ELSE CASE b.op = "headers" -> HeadersWrong(b)
           [] b.op = "list" -> ListWrong(b)
           [] b.op = "test" -> TestWrong(b)
           [] b.op = "extract" -> ExtractWrong(b)
           [] b.op = "bytes" -> BytesWrong(b)
           [] b.op = "dec" -> BytesWrong(b)
           [] OTHER -> "harness: unknown operation"

Counts(w) == w # "" /\ \E k \in Judge : Len(w) > Len(k) /\ SubSeq(w, 1, Len(k)) = k

(* the archive is what its maker says it is *)
Expected == CASE K.claim = "sound" -> AllSound
              [] K.claim = "damaged" -> MustFail
              [] OTHER -> TRUE

JudgeOne ==
    /\ More /\ Ended(x) /\ oi <= Len(K.obs)
    /\ (\E w \in {IF oi = 1 /\ ~Expected THEN "harness: not a " \o K.claim \o " archive" ELSE Wrong(K.obs[oi])} :
            IF Counts(w) THEN bad' = w /\ UNCHANGED oi ELSE oi' = oi + 1 /\ UNCHANGED bad)
    /\ UNCHANGED <<ci, x>>

NextCase ==
    /\ More /\ Ended(x) /\ oi > Len(K.obs)
    /\ ci' = ci + 1 /\ x' = Begin(<<>>) /\ oi' = 1 /\ TLCSet(1, ci + 1)
    /\ UNCHANGED bad

Next == (Read \/ JudgeOne \/ NextCase) /\ step' = step + 1
Spec == Init /\ [][Next]_vars

View == <<ci, step, bad>>
NoBad == bad = "" \/ (PrintT("BAD|" \o K.id \o "|" \o bad) /\ FALSE)
AllRead == TLCGet(1) = Len(Cases) + 1
Alias == [case |-> IF ci <= Len(Cases) THEN K.id ELSE "", operation |-> oi, end |-> x.end,
          members |-> Len(x.list), bad |-> bad]
=============================================================================
