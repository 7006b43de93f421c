------------------------------ MODULE Generate ------------------------------
(* The design of key generation, one system call after the other.  Every one *)
(* of them may fail, writing after any part of the data; the process may be  *)
(* killed after any of them (a prefix of a behaviour is a behaviour, so that *)
(* invariants are what holds after a kill).                                  *)
EXTENDS FileSys, TLC, Json
CONSTANTS Modes,        \* permissions the design asks for: <<sec, pub>>
          Order,        \* order in which it creates the files
          Excl          \* it creates them with O_EXCL
VARIABLES pc, step, pre, umask, fault, res,
          rival         \* which of the names somebody else has taken meanwhile, and when
vars == <<fsvars, pc, step, pre, umask, fault, res, rival>>

Pres == {"none", "file", "dir", "link", "dangling"}
File(k) == IF k = 1 THEN SecName ELSE PubName
Kind(k) == IF k = 1 THEN "sec" ELSE "pub"
Old(i) == [pre |-> TRUE, mode |-> 420, secret |-> FALSE, has |-> "part", key |-> 0, seen |-> TRUE, lost |-> FALSE]
Init == /\ pre \in [1 .. 2 -> Pres]
        /\ umask \in {0, 18, 63, 511}
        /\ names = [q \in {File(k) : k \in {j \in 1 .. 2 : pre[j] # "none"}} |-> IF q = SecName THEN 11 ELSE 12]
        /\ files = [i \in {10 + k : k \in {j \in 1 .. 2 : pre[j] # "none"}} |-> Old(i)]
        /\ private = {}
        /\ pc = (IF Excl THEN "open" ELSE "look") /\ step = 1 /\ fault = "none" /\ res = "none"
        /\ rival = [file |-> 0, at |-> ""]
Keep == UNCHANGED <<pre, umask, private, rival>>
k == Order[step]
Fault(f, i) == fault' = f \o ToString(i)

\* The design that only looks whether the name exists, and then creates it.
Look == /\ pc = "look" /\ pc' = (IF Name(File(k)) = NoFile THEN "open" ELSE "undo")
        /\ UNCHANGED <<names, files, step, fault, res>> /\ Keep
OpenAny == /\ pc = "open" /\ Name(File(k)) # NoFile /\ pc' = "close"
           /\ Change(Name(File(k)), k = 1, Kind(k), 1) /\ Keep /\ UNCHANGED <<step, fault, res>>
Open == /\ pc = "open"
        /\ \/ \* O_EXCL: an existing name, also of a symbolic link, is refused
              /\ Name(File(k)) # NoFile /\ pc' = "undo" /\ UNCHANGED <<names, files, fault>>
           \/ /\ Name(File(k)) = NoFile /\ Create(File(k), k, Modes[k], umask) /\ pc' = "write" /\ UNCHANGED fault
           \/ /\ Name(File(k)) = NoFile /\ fault = "none" /\ Fault("open", k) /\ pc' = "undo" /\ UNCHANGED <<names, files>>
        /\ Keep /\ UNCHANGED <<step, res>>
Write == /\ pc = "write"
         /\ \/ Change(k, k = 1, Kind(k), 1) /\ pc' = "close" /\ UNCHANGED fault
            \/ fault = "none" /\ Fault("write", k) /\ Change(k, k = 1, "part", 0) /\ pc' = "remove"
         /\ Keep /\ UNCHANGED <<step, res>>
Close == /\ pc = "close"
         /\ \/ /\ UNCHANGED <<names, files, fault>>
               /\ IF step = 2 THEN pc' = "ok" /\ UNCHANGED step ELSE pc' = (IF Excl THEN "open" ELSE "look") /\ step' = 2
            \/ fault = "none" /\ Fault("close", k) /\ pc' = "remove" /\ UNCHANGED <<names, files, step>>
         /\ Keep /\ UNCHANGED res
Remove == pc = "remove" /\ Point(File(k), NoFile) /\ pc' = "undo" /\ Keep /\ UNCHANGED <<step, fault, res>>
(* Remove the file created first. *)
Undo == /\ pc = "undo"
        /\ IF step = 2 THEN Point(File(Order[1]), NoFile) ELSE UNCHANGED <<names, files>>
        /\ pc' = "err" /\ Keep /\ UNCHANGED <<step, fault, res>>
End == /\ pc \in {"ok", "err"} /\ res = "none" /\ res' = pc /\ Keep /\ UNCHANGED <<names, files, pc, step, fault>>
(* Somebody else creates a file of one of the names; not twice.              *)
Rival == /\ pc \in {"open", "write", "close"} /\ rival.file = 0 /\ fault = "none"
         /\ \E j \in 1 .. 2 :
               /\ Name(File(j)) = NoFile
               /\ Become(Set(names, File(j), 20 + j), Set(files, 20 + j, Old(20 + j)))
               /\ rival' = [file |-> j, at |-> pc \o ToString(k)]
         /\ UNCHANGED <<pc, step, pre, umask, fault, res, private>>
Steps == Open \/ Write \/ Close \/ Remove \/ Undo \/ End \/ (~Excl /\ (Look \/ OpenAny))
Next == Steps \/ Rival
Spec == Init /\ [][Next]_vars /\ WF_vars(Steps)

Always == AtAllTimes
AtEnd == /\ res = "ok" => Succeeded
         /\ res = "err" => NoTrace
Refused == res # "none" => (res = "ok") = (fault = "none" /\ pre = [j \in 1 .. 2 |-> "none"] /\ rival.file = 0)
Ends == <>(res # "none")
Emit == res # "none" => PrintT("CASE " \o ToJson([fam |-> "gensys", pre |-> pre, umask |-> umask, fault |-> fault,
                                               rival |-> rival.file, rat |-> rival.at]))
=============================================================================
