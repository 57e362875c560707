----------------------------- MODULE StoreTrace -----------------------------
(* Follows histories of an archive (IOEnv.CASES): after every step the bytes *)
(* at the archive's path must be an archive, by the reader of Archive, that  *)
(* Store allows the step to leave.  A case has                               *)
(*   id, tz (seconds that local time was ahead), uid, gid                    *)
(*   steps  each with op, fail (how it broke off), err (it reported an       *)
(*          error), same (the file at the archive's path has the same bytes  *)
(*          as before the step), has (there is one), arc (its bytes, unless  *)
(*          same), was (there was one) and                                   *)
(*     "add"      srcs (the sources), opt (the options), gone (the sources   *)
(*                that are no longer there), stub (the program that had the  *)
(*                archive behind it is not as it was)                        *)
(*     "headers"  heads                                                      *)
(*     "bytes", "dec"  name, data                                            *)
(*     "list", "test"                                                        *)
(* Kinds of disagreement:                                                    *)
(*   crash    a step broke off                                               *)
(*   refused  a step reported an error for no reason                         *)
(*   silent   a step that could not do its work reported no error            *)
(*   touched  a step changed the archive that should not have                *)
(*   damaged  the archive is not one                                         *)
(*   lost     a member is missing, doubled, out of order or changed          *)
(*   content  a member does not have the content that was added              *)
(*   meta     nor its time, mode, owner, level or link target                *)
(*   listed   the listing is not what the archive holds                      *)
(*   read     other bytes were extracted than were added                     *)
(*   source   a source disappeared that was not to be moved, or not archived *)
EXTENDS Archive, Store, Json, IOUtils, TLC

CONSTANT Judge

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, si,
          ms,           \* the members before the step: [name, time, h, data, raw]
          x,            \* the reader of the archive after the step
          bad, step
vars == <<ci, si, ms, x, bad, step>>

K == Cases[ci]
S == K.steps[si]
More == bad = "" /\ ci <= Len(Cases)
InStep == More /\ si <= Len(K.steps)

Init == ci = 1 /\ si = 1 /\ ms = <<>> /\ x = Begin(<<>>) /\ bad = "" /\ step = 0 /\ TLCSet(1, 1)

Counts(w) == w # "" /\ \E k \in Judge : Len(w) > Len(k) /\ SubSeq(w, 1, Len(k)) = k

(*--------------------- the archive after a step that changed it ------------*)
Now == S.arc
RawAt(y) == LET h == Last1(y) IN SubSeq(Now, y.p - Num(h.packed) - h.hsize + 1, y.p)

(* a member taken over as it was needs no unpacking *)
Known(y) == {i \in DOMAIN ms : ms[i].raw = RawAt(y)}

Read ==
    /\ InStep /\ ~S.same /\ ~Ended(x)
    /\ (\E y \in {IF Busy(x)
                  THEN IF x.out = <<>> /\ x.r.p = Start(x.m).p /\ Known(x) # {}
                       THEN Closed([x EXCEPT !.out = ms[CHOOSE i \in Known(x) : TRUE].data], "good")
                       ELSE Unpack(x)
                  ELSE TakeHeader(Now, K.tz, x)} : x' = y)
    /\ UNCHANGED <<ci, si, ms, bad>>

SoundAll == x.end = "end" /\ \A i \in DOMAIN x.got : x.got[i].v \in {"good", "none"}
NewMembers ==
    FoldLeft(LAMBDA a, i :
                LET h == x.list[i]
                    n == h.hsize + Num(h.packed)
                IN  [p |-> a.p + n,
                     ms |-> Append(a.ms, [name |-> h.name, time |-> h.time, h |-> h, data |-> x.got[i].data,
                                          raw |-> SubSeq(Now, a.p + 1, a.p + n)])],
             [p |-> 0, ms |-> <<>>], [i \in 1..Len(x.list) |-> i]).ms

(*-------------------------------- judging ----------------------------------*)
Between(t, a, b) == ~Later(a, t) /\ ~Later(t, b)
(* stamps of MS-DOS have a resolution of two seconds *)
Coarse(o) == o.generic /\ o.level < 2

SameMember(a, b) == a.raw = b.raw \/ (a.data = b.data /\ [a.h EXCEPT !.hsize = 0] = [b.h EXCEPT !.hsize = 0])

MethodFits(h, s, o) == h.method = <<45, 108, 104, 48, 45>> \/ h.method = <<45, 108, 104, 48 + o.method, 45>>

MetaWrong(m, s, o) ==
    LET h == m.h
    IN  IF h.level # o.level THEN "level"
        ELSE IF ~Between(h.time, IF Coarse(o) THEN Earlier(s.from, 1) ELSE s.from, IF Coarse(o) THEN Earlier(s.to, -1) ELSE s.to) THEN "time"
        ELSE IF s.kind = "f" /\ ~MethodFits(h, s, o) THEN "method"
        ELSE IF h.size # [hi |-> Len(s.data) \div 65536, lo |-> Len(s.data) % 65536] THEN "size"
        ELSE IF o.generic THEN ""
        ELSE IF h.mode # s.mode + (CASE s.kind = "f" -> 32768 [] s.kind = "d" -> 16384 [] OTHER -> 40960) THEN "mode"
        ELSE IF h.uid # K.uid \/ h.gid # K.gid THEN "owner"
        ELSE IF s.kind = "l" /\ h.real # s.real THEN "target"
        ELSE ""

Opt == [S.opt EXCEPT !.exclude = ToSet(@)]
Sources == FoldLeft(LAMBDA a, s : Append(a, s @@ [time |-> s.from]), <<>>, S.srcs)

(* what is wrong with the members new after adding? *)
AddWrong(new) ==
    LET going == Going(ms, Sources, Opt)
        kept == Kept(ms, Sources, Opt)
        e == EntriesOf(going)
        names == FoldLeft(LAMBDA a, m : Append(a, m.name), <<>>, new)
        rest == SelectSeq(new, LAMBDA m : m.name \notin e)
        content == {s \in Range(going) : s.entry \in NamesOf(new) /\ Named1(new, s.entry).data # s.data}
        meta == {s \in Range(going) : s.entry \in NamesOf(new) /\ MetaWrong(Named1(new, s.entry), s, Opt) # ""}
    IN  IF ~InOrder(ms, Sources, Opt, names) THEN "lost: other members, or another order, than there should be"
        ELSE IF \E i \in DOMAIN kept : ~SameMember(kept[i], rest[i]) THEN "lost: a member has changed"
        ELSE IF content # {} THEN "content: a member has other content than was added"
        ELSE IF meta # {} THEN "meta: " \o (LET s == CHOOSE s \in meta : TRUE IN MetaWrong(Named1(new, s.entry), s, Opt))
        ELSE ""

GoneWrong(failed) ==
    LET may == {Sources[i].name : i \in {j \in DOMAIN Sources : \E k \in DOMAIN Going(ms, Sources, Opt) : Going(ms, Sources, Opt)[k] = Sources[j]}}
        gone == ToSet(S.gone)
    IN  IF gone = {} /\ ~Opt.delete THEN ""
        ELSE IF failed \/ ~Opt.delete \/ Opt.noexec THEN (IF gone # {} THEN "source: a source has disappeared" ELSE "")
        ELSE IF ~(gone \subseteq may) THEN "source: a source has disappeared that was not archived"
        ELSE IF \E s \in Range(Going(ms, Sources, Opt)) : s.kind # "d" /\ s.name \notin gone THEN "source: one has not been moved"
        ELSE ""

(* a directory is looked into even when it is not itself stored *)
Entered(s) == s.kind = "d" /\ Upper(s.name) \notin Opt.exclude /\ \A i \in DOMAIN s.under : Upper(s.under[i]) \notin Opt.exclude
MustFail == \/ Opt.auto /\ ~S.was
            \/ \E s \in Range(Going(ms, Sources, Opt)) : s.unreadable
            \/ \E s \in Range(Sources) : s.unreadable /\ Entered(s)
(* whether one that need not be added is opened all the same is left open *)
MayFail == (Opt.auto /\ ~S.was) \/ \E s \in Range(Sources) : s.unreadable

(* an add that left new (the members, after reading if the bytes changed) *)
AddJudged(new) ==
    IF S.stub THEN "touched: the self-extracting archive that was added to" ELSE
    IF Opt.noexec THEN (IF ~S.same THEN "touched: without execution" ELSE GoneWrong(FALSE))
    ELSE IF S.err THEN
        IF ~S.same THEN "touched: by an add that failed"
        ELSE IF ~MayFail THEN "refused: an add failed"
        ELSE GoneWrong(TRUE)
    ELSE IF MustFail THEN "silent: a source that cannot be read is not reported"
    ELSE LET w == AddWrong(new) IN IF w # "" THEN w ELSE GoneWrong(FALSE)

(* header g as the implementation lists it is header h *)
Listed(g, h) ==
    /\ g.level = h.level /\ g.os = h.os /\ g.method = h.method /\ g.packed = h.packed /\ g.size = h.size
    /\ g.name = h.name /\ (FileType(h.mode) = 10 => g.real = h.real) /\ g.crc = h.crc
    /\ (h.time = AnyTime \/ g.time = h.time)
    /\ g.mode = h.mode /\ g.uid = h.uid /\ g.gid = h.gid /\ g.hsize = h.hsize

LookWrong ==
    IF ~S.same THEN "touched: by " \o S.op
    ELSE IF ~S.was THEN (IF ~S.err THEN "silent: there is no archive" ELSE "")
    ELSE CASE S.op = "headers" ->
               IF S.err THEN "refused: listing failed"
               ELSE IF Len(S.heads) # Len(ms) THEN "listed: not all members, or more"
               ELSE IF \E i \in DOMAIN ms : ~Listed(S.heads[i], ms[i].h) THEN "listed: otherwise than in the archive"
               ELSE ""
           [] S.op \in {"list", "test"} -> IF S.err THEN "refused: listing or testing failed" ELSE ""
           [] S.op \in {"bytes", "dec"} ->
               IF S.name \notin NamesOf(ms) THEN (IF ~S.err THEN "silent: there is no such member" ELSE "")
               ELSE IF FileType(Named1(ms, S.name).h.mode) # 8 THEN ""
               ELSE IF S.err THEN "refused: extraction failed"
               ELSE IF S.data # Named1(ms, S.name).data THEN "read: other bytes than were added"
               ELSE ""
           [] OTHER -> "harness: unknown operation"

Wrong(new) ==
    IF S.fail # "" THEN "crash: " \o S.fail
    ELSE IF ~S.same /\ ~SoundAll THEN "damaged: what was written is not an archive"
    ELSE IF S.op = "add" THEN AddJudged(new)
    ELSE LookWrong

JudgeStep ==
    /\ InStep /\ (S.same \/ Ended(x))
    /\ (\E new \in {IF S.same THEN ms ELSE NewMembers} :
        \E w \in {Wrong(new)} :
            IF Counts(w) THEN bad' = w /\ UNCHANGED <<si, ms, x>>
            ELSE /\ si' = si + 1 /\ ms' = new
                 /\ x' = Begin(<<>>) /\ UNCHANGED bad)
    /\ UNCHANGED ci

NextCase ==
    /\ More /\ si > Len(K.steps)
    /\ ci' = ci + 1 /\ si' = 1 /\ ms' = <<>> /\ x' = Begin(<<>>) /\ TLCSet(1, ci + 1)
    /\ UNCHANGED bad

Next == (Read \/ JudgeStep \/ NextCase) /\ step' = step + 1
Spec == Init /\ [][Next]_vars

View == <<ci, si, step, bad>>
NoBad == bad = "" \/ (PrintT("BAD|" \o K.id \o "|" \o bad) /\ FALSE)
AllRead == TLCGet(1) = Len(Cases) + 1
Alias == [case |-> IF ci <= Len(Cases) THEN K.id ELSE "", at |-> si, op |-> IF InStep THEN S.op ELSE "", end |-> x.end, bad |-> bad]
=============================================================================
