------------------------------- MODULE Output -------------------------------
(* How an operation produces its output files when writing may fail: it      *)
(* writes pieces, some of them held back in a buffer until later, and closes *)
(* the file.  The file system takes only so many bytes ("space"), fails one  *)
(* of the writes without taking anything ("write"), or fails at the end, in  *)
(* close ("close"), which is where it may report that earlier writes failed. *)
(* The contract: an operation reports success only if all of the output is   *)
(* there, and nothing failed.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPieces, MaxPiece, Ops, Vias

VARIABLES op, via, over,  \* which operation; what is at the output path before
          plan,           \* the pieces the operation hands over, one after the other
          fault, at,      \* the fault and its place
          pc, i,          \* the next piece
          held,           \* bytes in the buffer
          file, writes,   \* bytes in the file; number of writes so far
          failed, res
vars == <<op, via, over, plan, fault, at, pc, i, held, file, writes, failed, res>>

Sum(s) == LET S[k \in 0 .. Len(s)] == IF k = 0 THEN 0 ELSE S[k-1] + s[k] IN S[Len(s)]
Total == Sum(plan)
Plans == UNION {[1 .. n -> 0 .. MaxPiece] : n \in 1 .. MaxPieces}
Init == /\ op \in Ops /\ via \in Vias /\ over \in {"none", "shorter", "longer"}
        /\ plan \in Plans
        /\ fault \in {"none", "space", "write", "close"}
        /\ at \in CASE fault = "space" -> 0 .. Sum(plan) + 1 [] fault = "write" -> 1 .. Len(plan) + 1 [] OTHER -> {0}
        /\ pc = "open" /\ i = 1 /\ held = 0 /\ file = 0 /\ writes = 0 /\ failed = FALSE /\ res = "none"
Fixed == UNCHANGED <<op, via, over, plan, fault, at>>

(* Opening replaces what was there. *)
Open == /\ pc = "open" /\ pc' = "put" /\ file' = 0 /\ Fixed /\ UNCHANGED <<i, held, writes, failed, res>>
(* Write n bytes out of the buffer. *)
Write(n) == LET fits == CASE fault = "space" -> IF file + n <= at THEN n ELSE IF at > file THEN at - file ELSE 0
                          [] fault = "write" -> IF writes + 1 = at THEN 0 ELSE n
                          [] OTHER -> n
                bad == fits < n \/ (fault = "write" /\ writes + 1 = at)
            IN /\ file' = file + fits /\ writes' = writes + 1
               /\ IF bad THEN pc' = "fail" /\ failed' = TRUE ELSE UNCHANGED <<pc, failed>>
(* Take the next piece; hold back any part of what there is. *)
Put == /\ pc = "put" /\ i <= Len(plan) /\ i' = i + 1
       /\ \E keep \in 0 .. 2 : /\ keep <= held + plan[i] /\ held' = keep
                               /\ Write(held + plan[i] - keep)
       /\ Fixed /\ UNCHANGED res
(* Nothing is left: write what is still held. *)
Flush == /\ pc = "put" /\ i > Len(plan) /\ held > 0 /\ held' = 0 /\ Write(held) /\ Fixed /\ UNCHANGED <<i, res>>
Close == /\ pc = "put" /\ i > Len(plan) /\ held = 0 /\ pc' = "done"
         /\ IF fault = "close" THEN failed' = TRUE /\ res' = "err" ELSE res' = "ok" /\ UNCHANGED failed
         /\ Fixed /\ UNCHANGED <<i, held, file, writes>>
Fail == /\ pc = "fail" /\ pc' = "done" /\ res' = "err" /\ Fixed /\ UNCHANGED <<i, held, file, writes, failed>>
Next == Open \/ Put \/ Flush \/ Close \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Honest == res = "ok" => file = Total /\ ~failed
Reported == failed /\ pc = "done" => res = "err"
NoWorse == pc = "done" /\ ~failed => res = "ok"
Ends == <>(pc = "done")
Emit == pc = "done" /\ plan = [k \in 1 .. MaxPieces |-> 1] =>
          PrintT("CASE " \o ToJson([mode |-> op, via |-> via, over |-> over, fault |-> fault, at |-> at, res |-> res]))
=============================================================================
