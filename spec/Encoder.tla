------------------------------ MODULE Encoder -------------------------------
(* Contract of the line-breaking base64 encoder (package base64, Encoder).   *)
(* One action per public call; `given` is the byte sequence written so far,  *)
(* `sink` what the destination has received.                                 *)
EXTENDS Base64

LineChars == 72
LineBytes == 54

VARIABLES given, sink, status     \* status: "open", "failed", "closed"
encVars == <<given, sink, status>>

EncInit == given = <<>> /\ sink = <<>> /\ status = "open"

(* What may have been delivered while the encoder is still open: a prefix of *)
(* the complete groups, each full line followed by a line break.             *)
Complete(bs) == BreakLines(Encode(SubSeq(bs, 1, 3 * (Len(bs) \div 3))), LineChars)

(* What has been delivered after a successful Close.  If the data ends with  *)
(* a full line, a second line break (an empty last line) is allowed.         *)
Final(bs) == LET t == BreakLines(Encode(bs), LineChars)
             IN IF t # <<>> /\ t[Len(t)] = LF THEN {t, Append(t, LF)}
                ELSE {Append(t, LF)}

(* A write of p that reports n bytes; delta is what reached the destination, *)
(* sinkFailed whether the destination reported an error during the call.     *)
(* once: the destination fails only once, so what it did not take may be     *)
(* written again.                                                            *)
EncWrite(p, n, err, sinkFailed, once, delta) ==
    /\ status \in {"open", "failed"}
    /\ n >= 0 /\ n <= Len(p)
    /\ IF status = "open"
       THEN /\ given' = given \o p
            /\ sink' = sink \o delta
            /\ IsPrefixOf(sink', Complete(given'))
            /\ err => sinkFailed
            /\ (sinkFailed /\ ~once) => err
            /\ ~err => n = Len(p)
            /\ status' = IF err THEN "failed" ELSE "open"
       ELSE \* after a failure only the shape of the result is constrained
            UNCHANGED encVars

EncClose(err, sinkFailed, once, delta) ==
    /\ status \in {"open", "failed"}
    /\ IF status = "open"
       THEN /\ sink' = sink \o delta
            /\ err => sinkFailed
            /\ (sinkFailed /\ ~once) => err
            /\ IF err THEN \E t \in Final(given) : IsPrefixOf(sink', t)
               ELSE sink' \in Final(given)
            /\ status' = IF err THEN "failed" ELSE "closed"
            /\ UNCHANGED given
       ELSE UNCHANGED encVars
=============================================================================
