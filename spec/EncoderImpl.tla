---------------------------- MODULE EncoderImpl -----------------------------
(* The encoder as it is built: a three-byte buffer, a column counter, and a  *)
(* destination that accepts `room` characters and then fails for good.  Each *)
(* Write / Close is one step.  TLC checks that every step is allowed by the contract    *)
(* (module Encoder), and every explored step is a case for replay.           *)
EXTENDS Encoder, TLC, Json

CONSTANTS MaxBytes,     \* bytes written in total
          Sizes,        \* sizes of a single write
          Rooms         \* capacities of the destination (large = never fails)

VARIABLES buf, col, room, calls
implVars == <<given, sink, status, buf, col, room, calls>>

Byte(i) == (i * 37 + 11) % 256

(* The text that the complete groups of bs produce, starting in column c0    *)
(* (bytes already on the current line), with the line breaks in between.     *)
GroupText(bs, c0) ==
    LET t == Encode(bs)
        before == (c0 \div 3) * 4                      \* characters on the line
        breaks == (before + Len(t)) \div LineChars     \* line breaks produced
        w == LineChars + 1
    IN [p \in 1 .. Len(t) + breaks |->
           IF (before + p) % w = 0 THEN LF
           ELSE t[p - (before + p) \div w]]

(* Deliver text t to the destination: what gets through, and does it fail.   *)
Deliver(t) == [out |-> SubSeq(t, 1, Min(Len(t), room)), failed |-> Len(t) > room]

Init == /\ EncInit
        /\ buf = <<>> /\ col = 0
        /\ room \in Rooms
        /\ calls = [room |-> room, sizes |-> <<>>, closed |-> FALSE]

Write(k) ==
    /\ status = "open"
    /\ Len(given) + k <= MaxBytes
    /\ LET p == [i \in 1 .. k |-> Byte(Len(given) + i)]
           all == buf \o p
           g == 3 * (Len(all) \div 3)
           s == Deliver(GroupText(SubSeq(all, 1, g), col))
           \* bytes of p before the group at which the destination failed
           groupsOut == LET q == Len(s.out) + (col \div 3) * 4
                        IN (q - q \div (LineChars + 1)) \div 4 - col \div 3
           upTo == 3 * groupsOut + 2 - Len(buf)
           n == IF ~s.failed THEN k ELSE IF upTo < 0 THEN 0 ELSE Min(upTo, k)
       IN /\ buf' = SubSeq(all, g + 1, Len(all))
          /\ col' = (col + g) % LineBytes
          /\ room' = room - Len(s.out)
          /\ given' = given \o p /\ sink' = sink \o s.out
          /\ status' = IF s.failed THEN "failed" ELSE "open"
          /\ calls' = [calls EXCEPT !.sizes = Append(@, k)]
          /\ Assert(EncWrite(p, n, s.failed, s.failed, FALSE, s.out), <<"Write breaks the contract", k, implVars>>)

Close ==
    /\ status = "open"
    /\ LET s == Deliver((IF buf = <<>> THEN <<>> ELSE Encode(buf)) \o <<LF>>)
       IN /\ sink' = sink \o s.out
          /\ room' = room - Len(s.out)
          /\ status' = IF s.failed THEN "failed" ELSE "closed"
          /\ buf' = <<>> /\ col' = 0
          /\ calls' = [calls EXCEPT !.closed = TRUE]
          /\ UNCHANGED given
          /\ Assert(EncClose(s.failed, s.failed, FALSE, s.out), <<"Close breaks the contract", implVars>>)

Next == Close \/ \E k \in Sizes : Write(k)
Spec == Init /\ [][Next]_implVars

Case == [fam |-> "enc", room |-> calls.room, sizes |-> calls.sizes]
(* One case per state in which the encoder was closed or has failed. *)
Emit == (calls.closed \/ status = "failed") => PrintT("CASE " \o ToJson(Case))

(* One case per write of any size from any amount written before.            *)
EmitEdge == (status' = "open" /\ calls.room > 9000) =>
               PrintT("CASE " \o ToJson([fam |-> "enc", room |-> calls.room, sizes |-> calls'.sizes]))

(* Properties of the design, over all reachable states. *)
Delivered == \/ IsPrefixOf(sink, Complete(given))
             \/ \E t \in Final(given) : IsPrefixOf(sink, t)
Whole == status = "closed" => /\ Decode(NoBreaks(sink)).ok
                              /\ Decode(NoBreaks(sink)).bytes = given
LineLengths == \A i \in 1 .. Len(sink) :
                  (i % (LineChars + 1) = 0) => sink[i] = LF
(* The output is a function of the bytes alone: the machine's state depends  *)
(* only on how much was written, not on how it was divided.                  *)
DivisionIrrelevant ==
    status = "open" => /\ Len(buf) = Len(given) % 3
                       /\ col = (Len(given) - Len(buf)) % LineBytes
                       /\ sink = Complete(given)
NoHistory == <<given, sink, status, buf, col, room, calls.closed, calls.room>>
=============================================================================
