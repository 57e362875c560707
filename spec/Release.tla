------------------------------ MODULE Release -------------------------------
(* The files that a process has open.  An operation may open some while it   *)
(* works; when it returns, with success or an error, exactly those are open  *)
(* that were before.  IOEnv.CASES holds sequences of operations of one       *)
(* process, each                                                             *)
(*   op, err (it reported an error), fail (it broke off),                    *)
(*   before, after  the open files, "descriptor path"                        *)
(* Between operations nothing but the process's own files stays open.        *)
(* Kinds of disagreement:                                                    *)
(*   left     a file is still open                                           *)
(*   taken    a file of the caller has been closed                           *)
(*   harness  the recording does not fit together                            *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, si,
          own,          \* the files of the process itself; {} until known
          open,         \* the files open now
          bad, step
vars == <<ci, si, own, open, bad, step>>

K == Cases[ci]
S == K.steps[si]
More == bad = "" /\ ci <= Len(Cases)

Init == ci = 1 /\ si = 1 /\ own = {} /\ open = {} /\ bad = "" /\ step = 0 /\ TLCSet(1, 1)

(* the first operation of a process shows what the process has open *)
Start == IF si = 1 THEN ToSet(S.before) ELSE open
Some(fs) == CHOOSE f \in fs : TRUE

Wrong ==
    IF S.fail # "" THEN ""                    \* a matter of other properties
    ELSE IF ToSet(S.before) # Start THEN "harness: files open between operations"
    ELSE IF ToSet(S.after) \ Start # {} THEN "left: after " \o S.op \o (IF S.err THEN " with an error " ELSE " ") \o Some(ToSet(S.after) \ Start)
    ELSE IF Start \ ToSet(S.after) # {} THEN "taken: by " \o S.op \o " " \o Some(Start \ ToSet(S.after))
    ELSE ""

Operate ==
    /\ More /\ si <= Len(K.steps)
    /\ (\E w \in {Wrong} :
            IF w # "" THEN bad' = w /\ UNCHANGED <<si, own, open>>
            ELSE /\ si' = si + 1
                 /\ own' = (IF si = 1 THEN ToSet(S.before) ELSE own)
                 /\ open' = ToSet(S.after)
                 /\ UNCHANGED bad)
    /\ UNCHANGED ci

NextCase ==
    /\ More /\ si > Len(K.steps)
    /\ ci' = ci + 1 /\ si' = 1 /\ own' = {} /\ open' = {} /\ TLCSet(1, ci + 1)
    /\ UNCHANGED bad

Next == (Operate \/ NextCase) /\ step' = step + 1
Spec == Init /\ [][Next]_vars

View == <<ci, si, bad>>
(* what is open between operations is the process's own *)
Released == si > 1 /\ ci <= Len(Cases) /\ K.steps[si - 1].fail = "" => open = own
NoBad == bad = "" \/ (PrintT("BAD|" \o K.id \o "|" \o bad) /\ FALSE)
AllRead == TLCGet(1) = Len(Cases) + 1
Alias == [case |-> IF ci <= Len(Cases) THEN K.id ELSE "", at |-> si, bad |-> bad]
=============================================================================
