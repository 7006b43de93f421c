---------------------------- MODULE TracePsignify ----------------------------
(* Recorded histories of operations on a directory against Psignify.         *)
EXTENDS TraceLib, Psignify
VARIABLES fs, known
vars == <<l, fs, known>>
TInit == l = 1 /\ fs = [q \in {} |-> None] /\ known = {}

ChangedPaths == {ev.changed[i][1] : i \in 1 .. Len(ev.changed)}
NewContent(q) == LET i == CHOOSE j \in 1 .. Len(ev.changed) : ev.changed[j][1] = q IN ev.changed[i][2]
After == [q \in DOMAIN fs \cup ChangedPaths |-> IF q \in ChangedPaths THEN NewContent(q) ELSE fs[q]]
KeysIn(f) == {f[q].k : q \in DOMAIN f} \ {0}
Observe == fs' = After /\ known' = known \cup KeysIn(After)

(* A new directory. *)
Begin == /\ Is("begin") /\ known' = {}
         /\ fs' = [q \in ChangedPaths |-> NewContent(q)]
(* The environment changes files. *)
Env == Is("env") /\ Observe

(* The output is one of the inputs: the operation may refuse, or fail.        *)
Inputs(o) == CASE o.mode = "S" -> {SecPath(o), o.m}
               [] o.mode = "E" -> {PubPath(o), o.m}
               [] o.mode = "D" -> {SecPath(o), o.c}
               [] OTHER -> {}
Clash(o) == Inputs(o) \cap Outputs(o) # {}

Free(q) == \A i \in 1 .. Len(ev.notfree) : ev.notfree[i] # q
Op ==
    /\ Is("run") /\ Observe
    /\ OnAny({"C01", "C20", "C21", "C27"}) => Returned(ev.res)
    /\ LET o == ev.o
           want == Succeeds(fs, o, Free)
           ok == ev.res = "ok"
       IN /\ On("C27") /\ ~Clash(o) => ok = want
          \* The default options are those of a fresh process.
          /\ On("C27") => ev.asfresh
          \* Whether existing keys are overwritten is not a matter of C20 and C21.
          /\ OnAny({"C20", "C21"}) =>
                 \* A program may refuse to go on if a name it needs is taken.
                 /\ (want /\ ~ev.occupied /\ ~Clash(o)) => ok
                 /\ (ok /\ ~want) => (o.mode = "G" /\ o.odd = "" /\ GenPass(o).ok)
          /\ OnAny({"C21", "C27"}) /\ ok => Result(fs, After, o, known)
          /\ OnAny({"C21", "C27"}) => ChangedPaths \subseteq MayChange(o, ok)
          /\ On("C22") => ChangedPaths \subseteq MayChange(o, ok \/ o.mode = "G")
          /\ On("C08") /\ o.mode = "G" => \A q \in ChangedPaths : At(fs, q).t = "none"
          /\ On("C20") /\ o.via = "cli" =>
                 /\ ev.saysok = SaysOK(o, ok)
                 /\ ok => Result(fs, After, o, known)
          \* Writing may have failed.
          /\ On("C17") =>
                 /\ ok => Result(fs, After, o, known)
                 /\ ev.faulted => ~ok
          /\ On("C01") /\ o.mode = "S" => (Clash(o) \/ ok = want) /\ (ok => Result(fs, After, o, known))
          /\ On("C01") /\ o.mode = "V" => (want => ok)
          /\ On("C02") /\ o.mode = "V" => ok = want
          /\ On("C09") /\ o.mode \in {"E", "D"} => ((Clash(o) \/ (want => ok)) /\ (ok => Result(fs, After, o, known)))
(* A file elsewhere has come into existence or been changed.                 *)
Outside == Is("outside") /\ UNCHANGED <<fs, known>>
           /\ (On("C22") => ev.mode \notin {"S", "V", "E", "D"})
(* Where the user and the home directory are not certain, the operations     *)
(* still agree on them: the default keys are there for all, or for none.      *)
Homes == /\ Is("homes") /\ UNCHANGED <<fs, known>>
         /\ On("C21") => \A i, j \in 1 .. Len(ev.oks) : ev.oks[i] = ev.oks[j]
TNext == Begin \/ Env \/ Op \/ Outside \/ Homes
TSpec == TInit /\ [][TNext]_vars
=============================================================================
