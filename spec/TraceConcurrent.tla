--------------------------- MODULE TraceConcurrent ---------------------------
(* Recorded operations, each run alone (ph = 1) and then all at the same     *)
(* time (ph = 2), or the other way round, against the contract of sequential *)
(* operations in Psignify: each has the outcome it has alone.                *)
EXTENDS TracePsignify
VARIABLE first     \* operation -> its outcome when it was run first
cvars == <<l, fs, known, first>>
CInit == TInit /\ first = <<>>
With(i, r) == [j \in DOMAIN first \cup {i} |-> IF j = i THEN r ELSE first[j]]
New(i) == i \notin DOMAIN first

Outcome(o) ==
    LET ok == ev.res = "ok"
    IN [res |-> ev.res,
        expected |-> ok = Succeeds(fs, o, Free),
        result |-> ok => Result(fs, After, o, known),
        only |-> ChangedPaths \subseteq MayChange(o, ok),
        modes |-> ev.modes, says |-> ev.saysok]
(* An outcome at the same time as others, and the one alone.                 *)
Same(c, a) == /\ c.res = a.res
              /\ a.expected => c.expected
              /\ a.result => c.result
              /\ a.only => c.only
              /\ c.modes = a.modes /\ c.says = a.says
CRun == /\ Is("run") /\ Observe
        /\ LET r == Outcome(ev.o)
           IN IF New(ev.i) THEN first' = With(ev.i, r)
              ELSE /\ UNCHANGED first
                   /\ On("C25") => IF ev.ph = 1 THEN Same(first[ev.i], r) ELSE Same(r, first[ev.i])
(* Deriving encryption keys, encoding and decoding: the same result.         *)
CCall == /\ Is("call") /\ UNCHANGED <<fs, known>>
         /\ LET r == [res |-> ev.res, id |-> ev.id]
            IN IF New(ev.i) THEN first' = With(ev.i, r)
               ELSE UNCHANGED first /\ (On("C25") => r = first[ev.i])
(* Passphrases are asked for as often as by the same operations one after    *)
(* the other, and all that were supplied have been erased.                   *)
CPrompted == /\ Is("prompted") /\ UNCHANGED <<fs, known>>
             /\ On("C23") => ev.left = 0
             /\ IF New(-1) THEN first' = With(-1, [asked |-> ev.asked])
                ELSE UNCHANGED first /\ (On("C23") => ev.asked = first[-1].asked)
CBegin == Begin /\ first' = <<>>
CEnv == Env /\ UNCHANGED first
(* Changes that can't be any operation's, although none of them were alone.  *)
CStray == Is("stray") /\ Observe /\ UNCHANGED first /\ (On("C25") => ev.ph = 1)
(* What does not even end alone is of no interest here.                      *)
CAloneHang == Is("alonehang") /\ UNCHANGED <<fs, known, first>>
CNext == CBegin \/ CEnv \/ CRun \/ CPrompted \/ CCall \/ CStray \/ CAloneHang
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
