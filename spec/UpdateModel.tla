----------------------------- MODULE UpdateModel -----------------------------
(* The way the implementation updates an archive, one system call an action, *)
(* on the disk of Disk: copy to a temporary file beside the archive, keep a  *)
(* backup by linking, rename onto the archive, then remove what was moved.   *)
(* Every call may fail, and the process may be killed before each; then      *)
(* there may be another update.  Shown to be a refinement of Update.         *)
EXTENDS Disk, FiniteSets, TLC

CONSTANTS Updates,      \* how many updates
          Chunks,       \* how many writes the new archive takes
          Careless      \* make the backup by renaming (a mistake, to see it found)

Arc == "the.lzh"
Bak == "the.lzh.bak"
Temp(k) == <<"lh1", "lh2", "lh3">>[k]
Sources == {"a", "b"}

VARIABLES disk, pc, k,  \* where the update is, and its number
          w,            \* how much it has written
          opt,          \* [backup, move]
          o, n,         \* the old and the new archive
          end
vars == <<disk, pc, k, w, opt, o, n, end>>

Content(j, c) == [i \in 1..c |-> 10 * j + i]
ArcNow == IF HasName(disk, Arc) THEN At(disk, Arc) ELSE <<>>

Call == [op |-> "", path |-> "", to |-> "", fd |-> 0, from |-> 0, creat |-> FALSE, excl |-> FALSE, trunc |-> FALSE, app |-> FALSE,
         data |-> <<>>, pos |-> 0, ret |-> 0]

Start(had) == LET s == [f \in Sources |-> IF f = "a" THEN 1 ELSE 2]
              IN  IF had THEN [dir |-> With(s, Arc, 3), data |-> << <<1>>, <<2>>, Content(9, Chunks)>>, fd |-> [x \in {} |-> 0]]
                  ELSE [dir |-> s, data |-> << <<1>>, <<2>> >>, fd |-> [x \in {} |-> 0]]

Init == /\ disk \in {Start(TRUE), Start(FALSE)}
        /\ pc = "idle" /\ k = 0 /\ w = 0 /\ opt = [backup |-> FALSE, move |-> FALSE]
        /\ o = ArcNow /\ n = ArcNow /\ end = "ok"

Begin == /\ pc = "idle" /\ end # "run" /\ k < Updates
         /\ k' = k + 1 /\ w' = 0 /\ end' = "run" /\ pc' = "temp"
         /\ \E b, m \in BOOLEAN : opt' = [backup |-> b, move |-> m]
         /\ o' = ArcNow /\ n' = Content(k + 1, Chunks)
         /\ UNCHANGED disk

(* a call that succeeds leads to next, one that fails to other *)
Do(at, e, next, other) ==
    /\ pc = at /\ end = "run"
    /\ \/ disk' = After(disk, e) /\ pc' = next
       \/ disk' = disk /\ pc' = other
    /\ UNCHANGED <<k, w, opt, o, n, end>>

Make == Do("temp", [Call EXCEPT !.op = "open", !.path = Temp(k), !.creat = TRUE, !.excl = TRUE, !.ret = 5], "write", "failed")
Write == /\ pc = "write" /\ end = "run"
         /\ \/ /\ w < Chunks
               /\ disk' = After(disk, [Call EXCEPT !.op = "write", !.fd = 5, !.data = <<n[w + 1]>>, !.ret = 1]) /\ w' = w + 1 /\ pc' = pc
            \/ w < Chunks /\ pc' = "drop" /\ UNCHANGED <<disk, w>>
            \/ w = Chunks /\ pc' = "close" /\ UNCHANGED <<disk, w>>
         /\ UNCHANGED <<k, opt, o, n, end>>
AfterClose == IF opt.backup /\ o # <<>> THEN "unbak" ELSE "rename"
CloseIt == Do("close", [Call EXCEPT !.op = "close", !.fd = 5], AfterClose, "drop")
Unbak == /\ pc = "unbak" /\ end = "run"
         /\ IF HasName(disk, Bak) THEN \/ disk' = After(disk, [Call EXCEPT !.op = "unlink", !.path = Bak]) /\ pc' = "bak"
                                       \/ UNCHANGED disk /\ pc' = "drop"
            ELSE UNCHANGED disk /\ pc' = "bak"
         /\ UNCHANGED <<k, w, opt, o, n, end>>
Backup == Do("bak", [Call EXCEPT !.op = IF Careless THEN "rename" ELSE "link", !.path = Arc, !.to = Bak], "rename", "drop")
Rename == Do("rename", [Call EXCEPT !.op = "rename", !.path = Temp(k), !.to = Arc], IF opt.move THEN "move" ELSE "done", "drop")
(* a source that cannot be removed stays *)
Move == /\ pc = "move" /\ end = "run"
        /\ \/ \E f \in Sources \cap DOMAIN disk.dir : disk' = After(disk, [Call EXCEPT !.op = "unlink", !.path = f]) /\ pc' = pc
           \/ UNCHANGED disk /\ pc' = "done"
        /\ UNCHANGED <<k, w, opt, o, n, end>>
(* the temporary file is closed and removed *)
Drop == /\ pc = "drop" /\ end = "run"
        /\ disk' = [After(disk, [Call EXCEPT !.op = "unlink", !.path = Temp(k)]) EXCEPT !.fd = [x \in {} |-> 0]]
        /\ pc' = "failed" /\ UNCHANGED <<k, w, opt, o, n, end>>
Ended == /\ pc \in {"failed", "done"} /\ end = "run"
         /\ end' = (IF pc = "done" THEN "ok" ELSE "err") /\ pc' = "idle"
         /\ UNCHANGED <<disk, k, w, opt, o, n>>
Killed == /\ end = "run" /\ pc \notin {"failed", "done"}
          /\ end' = "killed" /\ pc' = "idle"
          /\ disk' = [disk EXCEPT !.fd = [x \in {} |-> 0]]
          /\ UNCHANGED <<k, w, opt, o, n>>

Next == Begin \/ Make \/ Write \/ CloseIt \/ Unbak \/ Backup \/ Rename \/ Move \/ Drop \/ Ended \/ Killed
Spec == Init /\ [][Next]_vars

(* no failure and no success leaves a temporary file of its own *)
Tidy == end \in {"ok", "err"} /\ k > 0 => ~HasName(disk, Temp(k))
BackupIsOld == end = "ok" /\ k > 0 /\ opt.backup /\ o # <<>> => HasName(disk, Bak) /\ At(disk, Bak) = o
Whole == end = "ok" /\ k > 0 => ArcNow = n

Up == INSTANCE Update WITH
        None <- <<>>, Contents <- {Content(j, Chunks) : j \in 1..9}, Files <- Sources,
        arc <- ArcNow, old <- o, new <- n, files <- Sources \cap DOMAIN disk.dir, moving <- opt.move, end <- end
Refines == Up!USpec
SeenToo == Up!Seen
=============================================================================
