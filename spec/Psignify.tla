------------------------------ MODULE Psignify ------------------------------
(* Contract of psignify as a whole: a set of files, and operations on them.  *)
(* What an operation does depends only on what the files contain now, on the *)
(* paths it is given and on the passphrases supplied.                        *)
(*                                                                           *)
(* The content of a path is a record                                         *)
(*   t     none, dir, data, sec, pub, sig or enc                             *)
(*   k     sec, pub, sig, enc: the key pair it belongs to                    *)
(*   p     sec: the passphrase ("" if unprotected)                           *)
(*   over  sig, enc: identity of the content signed or sealed                *)
(*   id    identity of the content itself                                    *)
(* A file that is damaged, or of no use to psignify, is just data.           *)
(*                                                                           *)
(* An operation is a record                                                  *)
(*   via   api or cli                                                        *)
(*   mode  G, S, V, E, D, or "" (no mode flag)                               *)
(*   s p m x c   the path arguments, "" if not given                         *)
(*   n     G: without a passphrase                                           *)
(*   given the passphrases supplied, in order; "error" if the prompt fails   *)
(*   odd   "" or why the command line is not valid ("help": asked for help)  *)
(*   base  base name of the default key pair                                 *)
EXTENDS Integers, Sequences, FiniteSets

None == [t |-> "none", k |-> 0, p |-> "", over |-> 0, id |-> 0]
At(fs, q) == IF q \in DOMAIN fs THEN fs[q] ELSE None
Readable(c) == c.t \notin {"none", "dir"}

(* ---- default names ------------------------------------------------------- *)
SecPath(o) == IF o.s # "" \/ o.via = "api" THEN o.s ELSE o.base \o ".sec"
PubPath(o) == IF o.p # "" \/ o.via = "api" THEN o.p ELSE o.base \o ".pub"
GenBase(o) == IF o.p # "" \/ o.via = "api" THEN o.p ELSE o.base
SigPath(o) == IF o.x # "" THEN o.x ELSE o.m \o ".sig"
EncPath(o) == IF o.c # "" THEN o.c ELSE o.m \o ".enc"

(* The files an operation may create or change. *)
Outputs(o) == CASE o.odd # "" -> {}
                [] o.mode = "G" -> {GenBase(o) \o ".sec", GenBase(o) \o ".pub"}
                [] o.mode = "S" -> {SigPath(o)}
                [] o.mode = "E" -> {EncPath(o)}
                [] o.mode = "D" -> {o.m}
                [] OTHER -> {}

(* ---- passphrases ----------------------------------------------------------- *)
GenPass(o) == IF o.n THEN [ok |-> TRUE, p |-> ""]
              ELSE IF Len(o.given) = 0 \/ o.given[1] = "error" THEN [ok |-> FALSE, p |-> ""]
              ELSE IF o.via = "api" THEN [ok |-> TRUE, p |-> o.given[1]]
              ELSE IF Len(o.given) < 2 THEN [ok |-> FALSE, p |-> ""]
              ELSE [ok |-> o.given[1] = o.given[2] /\ o.given[2] # "error", p |-> o.given[1]]
Unlocked(c, o) == c.p = "" \/ (Len(o.given) >= 1 /\ o.given[1] = c.p)

(* ---- outcomes ---------------------------------------------------------------- *)
(* free(q): q is not a directory and the directory it is in exists.           *)
Succeeds(fs, o, free(_)) ==
    CASE o.odd = "help" -> TRUE
      [] o.odd # "" -> FALSE
      [] o.mode = "G" -> /\ GenPass(o).ok
                         /\ \A q \in Outputs(o) : At(fs, q).t = "none" /\ free(q)
      [] o.mode = "S" -> LET c == At(fs, SecPath(o))
                         IN c.t = "sec" /\ Unlocked(c, o) /\ Readable(At(fs, o.m)) /\ free(SigPath(o))
      [] o.mode = "V" -> LET c == At(fs, PubPath(o)) g == At(fs, SigPath(o)) m == At(fs, o.m)
                         IN c.t = "pub" /\ g.t = "sig" /\ Readable(m) /\ g.k = c.k /\ g.over = m.id
      [] o.mode = "E" -> At(fs, PubPath(o)).t = "pub" /\ Readable(At(fs, o.m)) /\ free(EncPath(o))
      [] o.mode = "D" -> LET c == At(fs, SecPath(o)) e == At(fs, o.c)
                         IN c.t = "sec" /\ Unlocked(c, o) /\ e.t = "enc" /\ e.k = c.k /\ o.m # "" /\ free(o.m)
      [] OTHER -> FALSE

(* The outputs of an operation that succeeds; known: the key pairs so far.    *)
Result(fs, fs2, o, known) ==
    CASE o.odd # "" -> TRUE
      [] o.mode = "G" -> LET s == At(fs2, GenBase(o) \o ".sec") p == At(fs2, GenBase(o) \o ".pub")
                         IN /\ s.t = "sec" /\ s.p = GenPass(o).p
                            /\ p.t = "pub" /\ p.k = s.k /\ s.k \notin known
      [] o.mode = "S" -> LET g == At(fs2, SigPath(o))
                         IN g.t = "sig" /\ g.k = At(fs, SecPath(o)).k /\ g.over = At(fs, o.m).id
      [] o.mode = "E" -> LET e == At(fs2, EncPath(o))
                         IN e.t = "enc" /\ e.k = At(fs, PubPath(o)).k /\ e.over = At(fs, o.m).id
      [] o.mode = "D" -> At(fs2, o.m).id = At(fs, o.c).over
      [] OTHER -> TRUE

(* The files that may have changed. An operation that fails changes nothing, *)
(* except that sealing and opening may leave a partial output.               *)
MayChange(o, ok) == IF ok \/ o.mode \in {"E", "D"} THEN Outputs(o) ELSE {}

(* The command says so if a check, an encryption or a decryption succeeded.  *)
SaysOK(o, ok) == ok /\ o.odd = "" /\ o.mode \in {"V", "E", "D"}
=============================================================================
