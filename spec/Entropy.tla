------------------------------- MODULE Entropy -------------------------------
(* The design of drawing the random parts of a key pair from a source that   *)
(* gives as many bytes at a time as it likes, and may fail at any point.     *)
(* Byte k of the source is represented by k.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Need,      \* lengths of the parts
          ReadAll    \* the design reads on until a part is complete
VARIABLES part, got, pos, fail, step, reads, res
vars == <<part, got, pos, fail, step, reads, res>>
Total == Need[1] + Need[2] + Need[3]
Init == /\ part = 1 /\ got = [p \in 1 .. Len(Need) |-> [i \in 1 .. Need[p] |-> 0]] /\ pos = 1
        /\ fail \in 0 .. Total + 1 /\ step \in 1 .. 3 /\ reads = 0 /\ res = "none"
Have(p) == Cardinality({i \in 1 .. Need[p] : got[p][i] # 0})
Read == /\ res = "none" /\ part <= Len(Need)
        /\ LET h == Have(part)
               want == Need[part] - h
               left == IF fail = 0 THEN want ELSE fail - pos
               n == IF left < 0 THEN 0 ELSE IF want < step /\ want < left THEN want ELSE IF step < left THEN step ELSE left
           IN IF n = 0 THEN res' = "err" /\ UNCHANGED <<part, got, pos>>
              ELSE /\ got' = [got EXCEPT ![part] = [i \in 1 .. Need[part] |-> IF i > h /\ i <= h + n THEN pos + (i - h) - 1 ELSE @[i]]]
                   /\ pos' = pos + n
                   /\ part' = IF h + n = Need[part] \/ ~ReadAll THEN part + 1 ELSE part
                   /\ UNCHANGED res
        /\ reads' = reads + 1 /\ UNCHANGED <<fail, step>>
End == /\ res = "none" /\ part > Len(Need) /\ res' = "ok" /\ UNCHANGED <<part, got, pos, fail, step, reads>>
Next == Read \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllBytes == UNION {{got[p][i] : i \in 1 .. Need[p]} : p \in 1 .. Len(Need)}
(* A key pair is made of as many different bytes of the source. *)
Fresh == res = "ok" => 0 \notin AllBytes /\ Cardinality(AllBytes) = Total
Works == res # "none" => (res = "ok") = (fail = 0 \/ fail > Total)
Ends == <>(res # "none")
Emit == res # "none" => PrintT("CASE " \o ToJson([fam |-> "fresh", via |-> "entropy", fail |-> fail, step |-> step, total |-> Total]))
=============================================================================
