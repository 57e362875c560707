------------------------------ MODULE CodecTrace ------------------------------
(* Checks recorded members (IOEnv.CASES) against Codec, one after the other. *)
(* Fields of a case:                                                         *)
(*   id       names it in reports                                            *)
(*   method   the method its header announces                                *)
(*   in       the packed bytes                                               *)
(*   size     the original size its header announces                         *)
(*   out      the content the member is meant to have                        *)
(*   crc      the checksum its header carries                                *)
(*   result   "same" if unpacking by the implementation gave out, else how   *)
(*            it failed                                                      *)
(*   packed   the number of packed bytes                                     *)
(*   whole    whether in is given and to be followed                         *)
(*   slack    number of bytes of in that need not be part of the stream      *)
(*   req      the method that was asked for, "" for members made elsewhere   *)
(* Judge names the kinds of disagreement that count; a case with another     *)
(* kind is passed over.                                                      *)
EXTENDS Codec, Json, IOUtils, TLC

CONSTANT Judge

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, o, r, bad,
          step          \* counts; stands for o and r in the view
vars == <<ci, o, r, bad, step>>

K == Cases[ci]
More == bad = "" /\ ci <= Len(Cases)
Fresh == [p |-> -1, n |-> 0]

Init == ci = 1 /\ o = 0 /\ r = Fresh /\ bad = "" /\ step = 0 /\ TLCSet(1, 1)

NextCase == ci' = ci + 1 /\ o' = 0 /\ r' = Fresh /\ TLCSet(1, ci + 1)

(* the case is found wrong *)
Wrong(kind, what) ==
    IF kind \in Judge THEN bad' = kind \o ": " \o what /\ UNCHANGED <<ci, o, r>>
    ELSE NextCase /\ UNCHANGED bad

(* what the implementation did with the member, as a whole *)
Begin ==
    /\ More /\ r.p = -1
    /\ IF K.result # "same" THEN Wrong("result", K.result)
       ELSE IF K.req # "" /\ K.method \notin {K.req, "lh0"} THEN Wrong("method", "not the one asked for")
       ELSE IF K.req # "" /\ K.packed > Len(K.out) THEN Wrong("larger", "packed data larger than the content")
       ELSE IF K.size # Len(K.out) THEN Wrong("size", "the header announces another size")
       ELSE IF K.crc >= 0 /\ Crc(K.out) # K.crc THEN Wrong("checksum", "not that of the content")
       ELSE IF ~K.whole THEN NextCase /\ UNCHANGED bad
       ELSE r' = Start(K.method) /\ UNCHANGED <<ci, o, bad>>

Reading == More /\ r.p >= 0 /\ o < K.size

TakeHead ==
    /\ Reading /\ K.method \notin Stored /\ Due(K.method, r, o)
    /\ (\E h \in {HeadOf(K.method, K.in, r)} :
            IF h.ok THEN r' = h.r /\ UNCHANGED <<ci, o, bad>>
            ELSE Wrong("stream", "no legal block head"))

TakeCode ==
    /\ Reading /\ K.method \notin Stored /\ ~Due(K.method, r, o)
    /\ (\E t \in {CodeAt(K.method, K.in, r, o)} :
            IF ~t.ok \/ o + t.len > K.size THEN Wrong("stream", "no legal code")
            ELSE IF (IF t.lit THEN K.out[o + 1] = t.byte ELSE Copied(K.method, K.out, o, t.len, t.off))
            THEN /\ r' = IF K.method = "pm2" THEN Pm2Wrote(t.r, SubSeq(K.out, o + 1, o + t.len)) ELSE t.r
                 /\ o' = o + t.len
                 /\ UNCHANGED <<ci, bad>>
            ELSE Wrong("content", "not what the code stands for"))

(* a stored member is its content *)
TakeAll ==
    /\ Reading /\ K.method \in Stored
    /\ IF Len(K.in) < K.size THEN Wrong("stream", "stored data too short")
       ELSE IF SubSeq(K.in, 1, K.size) # K.out THEN Wrong("content", "not the stored bytes")
       ELSE o' = K.size /\ r' = [r EXCEPT !.p = 8 * K.size] /\ UNCHANGED <<ci, bad>>

Finish ==
    /\ More /\ r.p >= 0 /\ o = K.size
    /\ IF K.method \in {"lh0", "lz4", "pm0"} /\ Len(K.in) # K.size THEN Wrong("stream", "stored size")
       ELSE IF Used(r.p) > Len(K.in) THEN Wrong("stream", "too short")
       ELSE IF Used(r.p) + K.slack < Len(K.in) THEN Wrong("stream", "bytes left over")
       ELSE NextCase /\ UNCHANGED bad

Next == (Begin \/ TakeHead \/ TakeCode \/ TakeAll \/ Finish) /\ step' = step + 1
Spec == Init /\ [][Next]_vars

View == <<ci, step, bad>>
NoBad == bad = "" \/ (PrintT("BAD|" \o K.id \o "|" \o bad) /\ FALSE)
AllRead == TLCGet(1) = Len(Cases) + 1
Alias == [case |-> IF ci <= Len(Cases) THEN K.id ELSE "", at |-> o, bit |-> r.p, bad |-> bad]
===============================================================================
