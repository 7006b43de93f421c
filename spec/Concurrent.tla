------------------------------ MODULE Concurrent ------------------------------
(* Operations that run at the same time.  Every operation is a sequence of   *)
(* steps at which the others may come in: reading one of its files, asking   *)
(* for the passphrase, writing a part of its output.                         *)
(*                                                                           *)
(* Design "good": all working state belongs to the operation, or is a key    *)
(* that is only read.  The other designs are ways to go wrong, which the     *)
(* properties must reject:                                                   *)
(*   scratch   one buffer for all operations                                 *)
(*   inplace   an unlocked key is changed while it is used, and restored     *)
(*   umask     the mode of a new file is arranged through the process        *)
(*   temp      outputs are built under one temporary name                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Kinds, Design

(* What an operation does, step by step.  "in x": read x; "out": write out   *)
(* what was read last.                                                       *)
Steps(k) == CASE k = "S" -> <<"in", "ask", "in", "out">>           \* key, passphrase, message
              [] k = "V" -> <<"in", "in", "in", "out">>            \* key, message, signature
              [] k = "E" -> <<"in", "in", "out", "in", "out">>     \* key, chunk by chunk
              [] k = "D" -> <<"in", "ask", "in", "out", "in", "out">>
              [] k = "G" -> <<"in", "mode", "out", "mode", "out">> \* randomness, two files
              [] k = "T" -> <<"hold", "use", "drop">>              \* an unlocked key
              [] k = "B" -> <<"in", "out", "in", "out">>           \* encoding, decoding
Ops == 1 .. N

VARIABLES kind,   \* of each operation
          pc,     \* steps done
          buf,    \* what each operation read last
          out,    \* what it put out
          tmp,    \* its unfinished output
          scratch, held, umask, temp,   \* state of the process
          sched   \* the order of steps so far
vars == <<kind, pc, buf, out, tmp, scratch, held, umask, temp, sched>>

Init == /\ kind \in [Ops -> Kinds]
        /\ pc = [i \in Ops |-> 0] /\ buf = [i \in Ops |-> <<0, 0>>]
        /\ out = [i \in Ops |-> <<>>] /\ tmp = [i \in Ops |-> <<>>]
        /\ scratch = <<0, 0>> /\ held = 0 /\ umask = "open" /\ temp = <<>>
        /\ sched = <<>>

Done(i) == pc[i] = Len(Steps(kind[i]))
Last(i) == IF Design = "scratch" THEN scratch ELSE buf[i]
(* The key as it is seen now: right, unless someone turned it over.          *)
Key == IF Design = "inplace" /\ held % 2 = 1 THEN <<0, 1>> ELSE <<0, 0>>
Put(i, v) == IF Design = "temp"
             THEN /\ temp' = Append(IF tmp[i] = <<>> THEN <<>> ELSE temp, v)
                  /\ tmp' = [tmp EXCEPT ![i] = Append(@, v)]
                  /\ out' = [out EXCEPT ![i] = temp']
             ELSE /\ out' = [out EXCEPT ![i] = Append(@, v)]
                  /\ UNCHANGED <<temp, tmp>>

Step(i) ==
    /\ ~Done(i)
    /\ pc' = [pc EXCEPT ![i] = @ + 1]
    /\ sched' = Append(sched, i)
    /\ LET s == Steps(kind[i])[pc[i] + 1]
           new == <<i, pc[i] + 1>>
       IN CASE s = "in" -> /\ buf' = [buf EXCEPT ![i] = new] /\ scratch' = new
                           /\ UNCHANGED <<out, tmp, temp, held, umask>>
            [] s = "ask" -> UNCHANGED <<buf, scratch, out, tmp, temp, held, umask>>
            \* A mode is set for the file created next, and taken back then.
            [] s = "mode" -> /\ umask' = IF Design = "umask" THEN "closed" ELSE "open"
                             /\ UNCHANGED <<buf, scratch, out, tmp, temp, held>>
            [] s = "out" -> /\ Put(i, <<Last(i), IF kind[i] = "G" \/ umask = "open" THEN "own" ELSE "other">>)
                            /\ umask' = "open"
                            /\ UNCHANGED <<buf, scratch, held>>
            \* An unlocked key.
            [] s = "hold" -> /\ held' = held + 1 /\ UNCHANGED <<buf, scratch, out, tmp, temp, umask>>
            [] s = "use" -> /\ Put(i, <<Key, "own">>) /\ UNCHANGED <<buf, scratch, held, umask>>
            [] s = "drop" -> /\ held' = held - 1 /\ UNCHANGED <<buf, scratch, out, tmp, temp, umask>>
    /\ UNCHANGED kind
Next == \E i \in Ops : Step(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- the outcome of an operation alone ------------------------------------------ *)
RECURSIVE Alone(_, _, _, _)
Alone(i, st, n, lastin) ==
    IF n > Len(st) THEN <<>>
    ELSE CASE st[n] = "in" -> Alone(i, st, n + 1, <<i, n>>)
           [] st[n] = "out" -> <<<<lastin, "own">>>> \o Alone(i, st, n + 1, lastin)
           [] st[n] = "use" -> <<<<IF Design = "inplace" THEN <<0, 1>> ELSE <<0, 0>>, "own">>>> \o Alone(i, st, n + 1, lastin)
           [] OTHER -> Alone(i, st, n + 1, lastin)
NoInterference == \A i \in Ops : Done(i) => out[i] = Alone(i, Steps(kind[i]), 1, <<0, 0>>)
(* At every moment, what was put out is the beginning of that.                *)
Beginning == \A i \in Ops : LET a == Alone(i, Steps(kind[i]), 1, <<0, 0>>)
                            IN Len(out[i]) <= Len(a) /\ \A j \in 1 .. Len(out[i]) : out[i][j] = a[j]
(* Nothing that an operation does keeps the others from ending.               *)
AllEnd == <>(\A i \in Ops : Done(i))

Emit == (\A i \in Ops : Done(i)) => PrintT("CASE " \o ToJson([kinds |-> kind, sched |-> sched]))
=============================================================================
