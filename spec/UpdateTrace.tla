----------------------------- MODULE UpdateTrace -----------------------------
(* Follows updates of an archive as the kernel saw them (IOEnv.CASES): every *)
(* state of the disk between two system calls is one that a crash may leave, *)
(* and must be one that Update allows.  A case has                           *)
(*   id                                                                      *)
(*   before, after  the files, each [path, data], before and after           *)
(*   arc, bak       the names of the archive and of its backup               *)
(*   srcs           the files being added; mine: those that are to go        *)
(*   dirs, left     the directories before and after; mydirs: those being    *)
(*                  added, each [name, within]: what is in it before         *)
(*   move, backup   options                                                  *)
(*   events         the system calls on files there (none: not recorded)     *)
(*   end            "ok", "err", "killed" or how it broke off                *)
(*   fault          a call was made to fail: "no", "must" be reported, "may" *)
(*   loose          removing a file was made to fail                         *)
(*   hasref, ref    the archive that the undisturbed update makes            *)
(* Kinds of disagreement:                                                    *)
(*   crash     it broke off                                                  *)
(*   torn      at some point the file at the archive's path is neither the   *)
(*             old archive nor the new one                                   *)
(*   silent    a failure was not reported                                    *)
(*   refused   a failure was reported without one                            *)
(*   left      a file was left behind                                        *)
(*   other     another file was changed                                      *)
(*   backup    the backup is not the old archive                             *)
(*   source    a source was removed too early, wrongly, or not at all        *)
EXTENDS Disk, UpdateStep, SequencesExt, Json, IOUtils, TLC

CONSTANT Judge

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, ei, d, bad, step
vars == <<ci, ei, d, bad, step>>

K == Cases[ci]
More == bad = "" /\ ci <= Len(Cases)
Counts(x) == x # "" /\ \E k \in Judge : Len(x) > Len(k) /\ SubSeq(x, 1, Len(k)) = k

Names(fs) == {fs[i].path : i \in DOMAIN fs}
Of(fs, p) == fs[CHOOSE i \in DOMAIN fs : fs[i].path = p].data

Disk0(k) == [dir |-> [p \in Names(k.before) |-> CHOOSE i \in DOMAIN k.before : k.before[i].path = p],
             data |-> FoldLeft(LAMBDA a, f : Append(a, f.data), <<>>, k.before),
             fd |-> [x \in {} |-> 0]]
Nothing == [dir |-> [x \in {} |-> 0], data |-> <<>>, fd |-> [x \in {} |-> 0]]

Init == /\ ci = 1 /\ ei = 1 /\ bad = "" /\ step = 0 /\ TLCSet(1, 1)
        /\ d = IF Len(Cases) > 0 THEN Disk0(Cases[1]) ELSE Nothing

(* what is at the archive's path: a file or none *)
ArcOf(b, data) == [there |-> b, data |-> IF b THEN data ELSE <<>>]
OnDisk(x) == [arc |-> ArcOf(HasName(x, K.arc), IF HasName(x, K.arc) THEN At(x, K.arc) ELSE <<>>),
              gone |-> {s \in ToSet(K.srcs) : ~HasName(x, s)}]
OldArc == ArcOf(K.arc \in Names(K.before), IF K.arc \in Names(K.before) THEN Of(K.before, K.arc) ELSE <<>>)
EndArc == ArcOf(K.arc \in Names(K.after), IF K.arc \in Names(K.after) THEN Of(K.after, K.arc) ELSE <<>>)
NewArc == IF K.hasref THEN ArcOf(TRUE, K.ref) ELSE IF K.end = "ok" THEN EndArc ELSE OldArc
GoneAtStart == {s \in ToSet(K.srcs) : s \notin Names(K.before)}
GoneAtEnd == {s \in ToSet(K.srcs) : s \notin Names(K.after)}

Unknown(x, e) ==
    \/ e.op \in {"write", "pwrite", "read", "seek", "cut", "copy", "feed", "dup", "close"} /\ e.ret >= 0 /\ e.fd \notin DOMAIN x.fd
    \/ e.op = "copy" /\ e.ret >= 0 /\ e.from \notin DOMAIN x.fd
    \/ e.op \in {"rename", "link", "unlink", "truncate"} /\ e.ret >= 0 /\ ~HasName(x, e.path)

StepWrong(a, b) ==
    IF ~Allowed([OnDisk(a) EXCEPT !.gone = @ \ GoneAtStart], [OnDisk(b) EXCEPT !.gone = @ \ GoneAtStart], OldArc, NewArc, K.move)
    THEN IF OnDisk(a).arc # OnDisk(b).arc THEN "torn: the archive is neither the old one nor the new one" ELSE "source: a source is removed before the archive is in place"
    ELSE ""

Call ==
    /\ More /\ ei <= Len(K.events)
    /\ (\E e \in {K.events[ei]} :
         IF Unknown(d, e) THEN bad' = "harness: a call on a file that is not there" /\ UNCHANGED <<d, ei>>
         ELSE \E x \in {After(d, e)} : \E w \in {StepWrong(d, x)} :
                /\ (IF Counts(w) THEN bad' = w ELSE UNCHANGED bad)
                /\ d' = x /\ ei' = ei + 1)
    /\ UNCHANGED ci

Others == Names(K.before) \ ({K.arc, K.bak} \cup ToSet(K.srcs))

(* of the directories those may go, and must, that were archived and are empty *)
DirsWrong ==
    LET gone == ToSet(K.dirs) \ ToSet(K.left)
        here == Names(K.after) \cup ToSet(K.left)
    IN  IF ~(ToSet(K.left) \subseteq ToSet(K.dirs)) THEN "left: a directory is left behind"
        ELSE IF gone # {} /\ (~K.move \/ K.end = "err" \/ EndArc # NewArc) THEN "source: a directory has disappeared"
        ELSE IF ~(gone \subseteq {m.name : m \in ToSet(K.mydirs)}) THEN "source: a directory has disappeared that was not archived"
        ELSE IF K.move /\ K.end = "ok" /\ ~K.loose /\ (\E m \in ToSet(K.mydirs) : m.name \in here /\ ToSet(m.within) \cap here = {})
             THEN "source: a directory has not been moved"
        ELSE ""

EndWrong ==
    LET gone == GoneAtEnd \ GoneAtStart
        extra == Names(K.after) \ (Names(K.before) \cup {K.arc} \cup (IF K.backup THEN {K.bak} ELSE {}))
    IN  IF K.end \notin {"ok", "err", "killed"} THEN "crash: " \o K.end
        ELSE IF K.end = "killed" /\ EndArc \notin {OldArc, NewArc} THEN "torn: the archive is neither the old one nor the new one"
        ELSE IF K.end = "err" /\ EndArc # OldArc THEN "torn: an update that failed changed the archive"
        ELSE IF K.end = "ok" /\ EndArc # NewArc THEN "torn: an update that succeeded left another archive"
        ELSE IF K.end = "ok" /\ K.fault = "must" THEN "silent: a failure is not reported"
        ELSE IF K.end = "err" /\ K.fault = "no" THEN "refused: an update failed"
        ELSE IF K.end # "killed" /\ ~K.loose /\ extra # {} THEN "left: a file is left behind"
        ELSE IF \E p \in Others : p \notin Names(K.after) \/ Of(K.after, p) # Of(K.before, p) THEN "other: another file has changed"
        ELSE IF \E p \in ToSet(K.srcs) \ {K.arc} : p \in Names(K.after) /\ p \in Names(K.before) /\ Of(K.after, p) # Of(K.before, p) THEN "source: a source has changed"
        ELSE IF ~K.backup /\ K.bak \in Names(K.before) /\ (K.bak \notin Names(K.after) \/ Of(K.after, K.bak) # Of(K.before, K.bak))
             THEN "other: another file has changed"
        ELSE IF K.backup /\ K.end = "ok" /\ K.fault = "no" /\ OldArc.there /\ (K.bak \notin Names(K.after) \/ Of(K.after, K.bak) # OldArc.data)
             THEN "backup: it is not the old archive"
        ELSE IF gone # {} /\ (~K.move \/ EndArc # NewArc \/ K.end = "err") THEN "source: a source has disappeared"
        ELSE IF ~(gone \subseteq ToSet(K.mine)) THEN "source: one has disappeared that was not archived"
        ELSE IF K.move /\ K.end = "ok" /\ ~K.loose /\ ToSet(K.mine) \cap Names(K.after) # {} THEN "source: one has not been moved"
        ELSE DirsWrong

(* the calls recorded lead to the files that were found *)
Same == \/ K.events = <<>>
        \/ DOMAIN d.dir = Names(K.after) /\ \A p \in DOMAIN d.dir : At(d, p) = Of(K.after, p)

Finish ==
    /\ More /\ ei > Len(K.events)
    /\ (\E w \in {EndWrong} :
          IF Counts(w) THEN bad' = w /\ UNCHANGED <<ci, ei, d>>
          ELSE IF ~Same THEN bad' = "harness: the calls recorded do not lead to the files found" /\ UNCHANGED <<ci, ei, d>>
          ELSE /\ ci' = ci + 1 /\ ei' = 1 /\ TLCSet(1, ci + 1) /\ UNCHANGED bad
               /\ d' = IF ci < Len(Cases) THEN Disk0(Cases[ci + 1]) ELSE Nothing)

Next == (Call \/ Finish) /\ step' = step + 1
Spec == Init /\ [][Next]_vars

View == <<ci, ei, step, bad>>
NoBad == bad = "" \/ (PrintT("BAD|" \o K.id \o "|" \o bad) /\ FALSE)
AllRead == TLCGet(1) = Len(Cases) + 1
Alias == [case |-> IF ci <= Len(Cases) THEN K.id ELSE "", at |-> ei, end |-> IF ci <= Len(Cases) THEN K.end ELSE "", bad |-> bad]
=============================================================================
