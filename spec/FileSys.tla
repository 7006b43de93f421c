------------------------------- MODULE FileSys -------------------------------
(* The part of the file system that matters to key generation: names, the    *)
(* files they lead to, permissions, and what the files contain.              *)
(*                                                                           *)
(* files: identity -> [pre    it existed before                              *)
(*                     mode   permission bits                                *)
(*                     secret it was given secret key material (or that was  *)
(*                            attempted)                                     *)
(*                     has    what it contains: "sec"/"pub": a complete key  *)
(*                            file, otherwise "part"                         *)
(*                     key    and of which key pair                          *)
(*                     seen   others could open it at some point             *)
(*                     lost   an existing file that has been changed ]       *)
(* names: name -> identity                                                   *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise
VARIABLES names, files, private   \* private: directories only the owner can search
fsvars == <<names, files, private>>

NoFile == 0
Name(q) == IF q \in DOMAIN names THEN names[q] ELSE NoFile
Open2Others(m) == (m & 63) # 0
Set(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
(* Mark the files others can reach by name. *)
Seen(ns, fl) == [i \in DOMAIN fl |->
    [fl[i] EXCEPT !.seen = @ \/ (Open2Others(fl[i].mode) /\ \E q \in DOMAIN ns : ns[q] = i /\ q \notin private)]]
Become(ns, fl) == names' = ns /\ files' = Seen(ns, fl)

New(i, m) == [pre |-> FALSE, mode |-> m, secret |-> FALSE, has |-> "part", key |-> 0, seen |-> FALSE, lost |-> FALSE]
(* open(2) with O_CREAT of a name that does not exist; mkdir(2), symlink(2): *)
(* the umask applies.                                                        *)
Create(q, i, mode, umask) ==
    /\ i \notin DOMAIN files
    /\ Become(Set(names, q, i), Set(files, i, New(i, mode & (511 - umask))))
(* Changing the contents: secret and has describe the file afterwards. *)
Change(i, secret, has, key) ==
    Become(names, [files EXCEPT ![i] = [@ EXCEPT !.secret = @ \/ secret, !.has = has, !.key = key, !.lost = @ \/ files[i].pre]])
Chmod(i, mode) == Become(names, [files EXCEPT ![i] = [@ EXCEPT !.mode = mode, !.lost = @ \/ files[i].pre]])
(* The name leads to another file (or to none, NoFile) from now on. *)
Point(q, i) ==
    LET old == Name(q)
        fl == IF old # NoFile /\ files[old].pre THEN [files EXCEPT ![old] = [@ EXCEPT !.lost = TRUE]] ELSE files
    IN Become(IF i = NoFile THEN Without(names, q) ELSE Set(names, q, i), fl)
Rename(q, r) ==
    LET i == Name(q) old == Name(r)
        fl == [j \in DOMAIN files |-> [files[j] EXCEPT !.lost = @ \/ (files[j].pre /\ j \in {i, old})]]
    IN i # NoFile /\ Become(Set(Without(names, q), r, i), fl)

(* ---- what key generation guarantees at every moment ------------------------ *)
CONSTANTS SecName, PubName
Complete(q, kind) == Name(q) # NoFile /\ files[Name(q)].has = kind
Fresh(q) == Name(q) # NoFile /\ ~files[Name(q)].pre
(* Nobody else could ever open a file that holds, or will hold, the secret. *)
Secrecy == \A i \in DOMAIN files : ~files[i].pre /\ files[i].secret => ~files[i].seen
(* Files that existed are as they were. *)
Kept == \A i \in DOMAIN files : files[i].pre => ~files[i].lost /\ ~files[i].secret
(* There is no public key file without its complete secret key file. *)
Usable == Fresh(PubName) => Complete(SecName, "sec") /\ (Complete(PubName, "pub") => files[Name(SecName)].key = files[Name(PubName)].key)
AtAllTimes == Secrecy /\ Kept /\ Usable

(* ---- and when it ends ------------------------------------------------------- *)
Succeeded == /\ Fresh(SecName) /\ Fresh(PubName)
             /\ Complete(SecName, "sec") /\ Complete(PubName, "pub")
             /\ files[Name(SecName)].key = files[Name(PubName)].key
NoTrace == ~Fresh(SecName) /\ ~Fresh(PubName)
=============================================================================
