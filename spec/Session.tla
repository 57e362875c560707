------------------------------ MODULE Session -------------------------------
(* A process performs operations one after the other.  What each gives must  *)
(* be what it gives when it is the first: a function of the operation alone. *)
(* IOEnv.CASES holds sequences of operations, each                           *)
(*   id, first (every operation in it was the first of its process),         *)
(*   steps  [op (which operation), res (what it gave, and left on disk)]     *)
(* those with first come first; memo is what is learnt from them.            *)
(* Kinds of disagreement:                                                    *)
(*   depends  an operation gave something else than it does alone            *)
(*   harness  two processes disagree about a first operation                 *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, si, memo, bad, step
vars == <<ci, si, memo, bad, step>>

K == Cases[ci]
S == K.steps[si]
More == bad = "" /\ ci <= Len(Cases)

Init == ci = 1 /\ si = 1 /\ memo = [x \in {} |-> ""] /\ bad = "" /\ step = 0 /\ TLCSet(1, 1)

Known == S.op \in DOMAIN memo

Learn ==
    /\ More /\ si <= Len(K.steps) /\ K.first /\ ~Known
    /\ memo' = [x \in DOMAIN memo \cup {S.op} |-> IF x = S.op THEN S.res ELSE memo[x]]
    /\ si' = si + 1 /\ UNCHANGED <<ci, bad>>

(* the property: the result is the one known *)
Agree ==
    /\ More /\ si <= Len(K.steps) /\ Known
    /\ S.res = memo[S.op]
    /\ si' = si + 1 /\ UNCHANGED <<ci, memo, bad>>

Disagree ==
    /\ More /\ si <= Len(K.steps) /\ ~(Known /\ S.res = memo[S.op]) /\ ~(K.first /\ ~Known)
    /\ bad' = (IF K.first THEN "harness: " \o S.op \o " is not deterministic"
               ELSE IF ~Known THEN "harness: " \o S.op \o " was never first"
               ELSE "depends: " \o S.op \o (IF si > 1 THEN " after " \o K.steps[si - 1].op ELSE "") \o ": " \o S.res \o ", alone: " \o memo[S.op])
    /\ UNCHANGED <<ci, si, memo>>

NextCase ==
    /\ More /\ si > Len(K.steps)
    /\ ci' = ci + 1 /\ si' = 1 /\ TLCSet(1, ci + 1)
    /\ UNCHANGED <<memo, bad>>

Next == (Learn \/ Agree \/ Disagree \/ NextCase) /\ step' = step + 1
Spec == Init /\ [][Next]_vars

View == <<ci, si, bad>>
NoBad == bad = "" \/ (PrintT("BAD|" \o K.id \o "|" \o bad) /\ FALSE)
AllRead == TLCGet(1) = Len(Cases) + 1
Alias == [case |-> IF ci <= Len(Cases) THEN K.id ELSE "", at |-> si, bad |-> bad]
=============================================================================
