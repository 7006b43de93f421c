---------------------------- MODULE TraceGenerate ----------------------------
(* Recorded system calls of key generation, and what it left behind, against *)
(* FileSys.                                                                  *)
EXTENDS TraceLib, FileSys
VARIABLE umask
vars == <<l, fsvars, umask>>
GSec == "k.sec"
GPub == "k.pub"

TInit == l = 1 /\ umask = 0 /\ names = [q \in {} |-> 0] /\ files = [q \in {} |-> 0] /\ private = {}
C08 == On("C08")
Always == C08 => AtAllTimes'

Old == [pre |-> TRUE, mode |-> 0, secret |-> FALSE, has |-> "part", key |-> 0, seen |-> TRUE, lost |-> FALSE]
Begin == /\ Is("begin") /\ umask' = ev.umask /\ private' = {}
         /\ LET n == Len(ev.pre) IN
            /\ names' = [q \in {ev.pre[j] : j \in 1 .. n} |-> 100 + (CHOOSE j \in 1 .. n : ev.pre[j] = q)]
            /\ files' = [i \in {100 + j : j \in 1 .. n} |-> Old]
Sys ==
    /\ \/ /\ Is("create") /\ Create(ev.q, ev.i, ev.mode, umask)
          /\ private' = IF ev.private THEN private \cup {ev.q} ELSE private
       \/ /\ Is("change") /\ Change(ev.i, ev.secret, ev.has, ev.key) /\ UNCHANGED private
       \/ /\ Is("chmod") /\ Chmod(ev.i, ev.mode) /\ UNCHANGED private
       \/ /\ Is("point") /\ Point(ev.q, ev.i)
          /\ private' = IF ev.private THEN private \cup {ev.q} ELSE private \ {ev.q}
       \/ /\ Is("rename") /\ Rename(ev.q, ev.r)
          /\ private' = IF ev.private THEN private \cup {ev.r} ELSE private \ {ev.r}
       \/ \* somebody else has created a file of that name
          /\ Is("rival") /\ Name(ev.q) = NoFile /\ UNCHANGED private
          /\ Become(Set(names, ev.q, ev.i), Set(files, ev.i, Old))
    /\ UNCHANGED umask /\ Always
(* What is found afterwards. *)
Found(q) == IF q = GSec THEN ev.sec ELSE ev.pub
New1(q) == Found(q).t # "none" /\ ~Found(q).old
End ==
    /\ Is("end") /\ UNCHANGED <<fsvars, umask>>
    /\ C08 =>
        /\ ev.res \in {"ok", "err", "killed"}
        /\ ev.res = "ok" => Succeeded
        /\ (ev.res = "err" /\ ~ev.stuck) => NoTrace
        \* The same of the files themselves.
        /\ ev.oldkept
        /\ New1(GPub) => New1(GSec) /\ Found(GSec).t = "sec"
        /\ New1(GSec) => ~Open2Others(Found(GSec).mode)
        /\ ev.res = "ok" => /\ New1(GSec) /\ New1(GPub) /\ Found(GPub).t = "pub"
                            /\ Found(GSec).key = Found(GPub).key
        /\ (ev.res = "err" /\ ~ev.stuck) => ~New1(GSec) /\ ~New1(GPub)
        \* It also works: nothing failed, and nothing was in the way.
        /\ (ev.clean => ev.res = "ok")
TNext == Begin \/ Sys \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
