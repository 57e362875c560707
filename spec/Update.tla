------------------------------- MODULE Update -------------------------------
(* What updating an archive may look like from outside, at any moment: the   *)
(* file at its path is the old archive and then, at once, the new one; only  *)
(* then may files be removed that were to be moved into it.  An update ends  *)
(* in success, with the new archive, in a reported failure, with the old one *)
(* and every file still there, or it is killed, anywhere in between.         *)
EXTENDS FiniteSets, UpdateStep

CONSTANTS None, Contents, Files

VARIABLES arc,      \* the file at the archive's path, or None
          old, new, \* what it was, and what the update makes of it
          files,    \* the source files that are there
          moving,   \* are sources removed once they are in the archive?
          end       \* "run", "ok", "err", "killed"
uvars == <<arc, old, new, files, moving, end>>

UInit == /\ arc \in Contents \cup {None} /\ old = arc /\ new = arc
         /\ files = Files /\ moving = FALSE /\ end = "ok"

Begin == /\ end # "run" /\ end' = "run"
         /\ old' = arc /\ new' \in Contents /\ moving' \in BOOLEAN
         /\ UNCHANGED <<arc, files>>
Commit == /\ end = "run" /\ arc = old /\ arc' = new
          /\ UNCHANGED <<old, new, files, moving, end>>
Remove == /\ end = "run" /\ arc = new /\ moving
          /\ \E f \in files : files' = files \ {f}
          /\ UNCHANGED <<arc, old, new, moving, end>>
Succeed == end = "run" /\ arc = new /\ end' = "ok" /\ UNCHANGED <<arc, old, new, files, moving>>
Report == end = "run" /\ arc = old /\ end' = "err" /\ UNCHANGED <<arc, old, new, files, moving>>
Kill == end = "run" /\ end' = "killed" /\ UNCHANGED <<arc, old, new, files, moving>>
(* the user puts a file back *)
Bring == end # "run" /\ files' = Files /\ UNCHANGED <<arc, old, new, moving, end>>

UNext == Begin \/ Commit \/ Remove \/ Succeed \/ Report \/ Kill \/ Bring
USpec == UInit /\ [][UNext]_uvars

(* and so every step, seen as what is at the archive's path and which files   *)
(* are gone, is one that UpdateStep allows                                    *)
Seen == [][end = "run" => Allowed([arc |-> arc, gone |-> Files \ files], [arc |-> arc', gone |-> Files \ files'], old, new, moving)]_uvars
=============================================================================
