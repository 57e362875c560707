------------------------------ MODULE StoreGen ------------------------------
(* Behaviours of StoreModel, written to IOEnv.OUT one a line, to be replayed *)
(* on the implementation.                                                    *)
EXTENDS StoreModel, CSV, Json, IOUtils

CONSTANT Depth
VARIABLE did

Forms == [via : {"cmd", "cmd", "bytes", "add"}, level : 0..2, method : {0, 1, 5, 6, 7}, h : {"h1", "h2"}]

GInit == Init /\ did = <<>>

GAdd == \E ss \in {RandomElement(Lists)}, o \in {RandomElement(Options)}, f \in {RandomElement(Forms)} :
            LET tt == IF f.via = "cmd" THEN ss ELSE <<[ss[1] EXCEPT !.kind = "f", !.data = IF @ = 0 THEN 1 ELSE @]>>
                oo == IF f.via = "cmd" THEN o ELSE [o EXCEPT !.update = FALSE, !.fresh = FALSE, !.exclude = {}, !.auto = FALSE]
            IN  /\ Fits(tt, oo)
                /\ Add(tt, oo)
                /\ did' = Append(did, [op |-> "add", srcs |-> tt, opt |-> [oo EXCEPT !.exclude = SetToSeq(@)], form |-> f, name |-> <<>>])

GLook == \E k \in {RandomElement({"headers", "list", "test", "bytes", "dec"})}, n \in {RandomElement(Names)}, f \in {RandomElement(Forms)} :
            /\ UNCHANGED <<arc, given>>
            /\ did' = Append(did, [op |-> k, srcs |-> <<>>, opt |-> [sort |-> FALSE, update |-> FALSE, fresh |-> FALSE, generic |-> TRUE, exclude |-> <<>>, auto |-> FALSE],
                                   form |-> f, name |-> n])

GNext == Len(did) < Depth /\ (GAdd \/ GLook)
         /\ (Len(did') = Depth => CSVWrite("%1$s", <<ToJson(did')>>, IOEnv.OUT))
GSpec == GInit /\ [][GNext]_<<arc, given, did>>
=============================================================================
