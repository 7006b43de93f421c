----------------------------- MODULE PsignifyMC -----------------------------
(* All histories of psignify over a few files.  The operations are those of  *)
(* the contract in Psignify; the environment writes, copies, damages and     *)
(* deletes files.  Emits histories for replay.                               *)
EXTENDS Psignify, TLC, Json, Randomization, SequencesExt

CONSTANTS MaxOps, Sim, Bases, Msgs, Outs, Passes

VARIABLES fs, ops, nk, nid,
          signed, sealedTo      \* what signing and sealing were really used for
vars == <<fs, ops, nk, nid, signed, sealedTo>>

Secs == {b \o ".sec" : b \in Bases}
Pubs == {b \o ".pub" : b \in Bases}
Sigs == {m \o ".sig" : m \in Msgs} \cup {"x"}
Encs == {m \o ".enc" : m \in Msgs} \cup {"c"}
Paths == Secs \cup Pubs \cup Msgs \cup Sigs \cup Encs \cup Outs
Default == CHOOSE b \in Bases : TRUE

O(via, mode, s, p, m, x, c, n, given) ==
    [via |-> via, mode |-> mode, s |-> s, p |-> p, m |-> m, x |-> x, c |-> c, n |-> n, given |-> given,
     odd |-> "", base |-> Default, env |-> "", src |-> "", dst |-> ""]
Env(e, s, d) == [O("api", "", "", "", "", "", "", FALSE, <<>>) EXCEPT !.env = e, !.src = s, !.dst = d]

Via == {"api", "cli"}
OrNot(via, S) == IF via = "cli" THEN S \cup {""} ELSE S
Given == {<<p>> : p \in Passes \cup {"error"}}
OpSet ==
    UNION { { O(v, "G", "", b, "", "", "", g = <<>>, g) : b \in OrNot(v, Bases),
                 g \in {<<>>} \cup (IF v = "api" THEN {<<p>> : p \in Passes}
                                    ELSE {<<p, q>> : p \in Passes, q \in Passes \cup {"error"}}) }
        \cup { O(v, "S", s, "", m, x, "", FALSE, g) : s \in OrNot(v, Secs), m \in Msgs \cup Outs \cup Encs, x \in {"", "x"}, g \in Given }
        \cup { O(v, "V", "", p, m, x, "", FALSE, <<>>) : p \in OrNot(v, Pubs), m \in Msgs \cup Outs \cup Encs, x \in Sigs \cup {""} }
        \cup { O(v, "E", "", p, m, "", c, FALSE, <<>>) : p \in OrNot(v, Pubs), m \in Msgs \cup Outs \cup Sigs, c \in {"", "c"} }
        \cup { O(v, "D", s, "", m, "", c, FALSE, g) : s \in OrNot(v, Secs), m \in Msgs \cup Outs, c \in Encs, g \in Given }
        : v \in IF Sim THEN Via ELSE {"cli"} }
EnvSet == { Env("write", "", m) : m \in Msgs }
          \cup { Env("key", p, b) : p \in Passes \cup {""}, b \in Bases }
          \cup { Env("copy", p, q) : p \in Paths, q \in Paths }
          \cup { Env("damage", "", p) : p \in Paths } \cup { Env("delete", "", p) : p \in Paths }
Clash(o) == o.mode # "" /\ \E q \in Outputs(o) : q = o.m /\ o.mode # "D"

Init == /\ fs = [q \in Paths |-> IF q \in Msgs THEN [None EXCEPT !.t = "data", !.id = 1] ELSE None]
        /\ ops = <<>> /\ nk = 1 /\ nid = 2
        /\ signed = {} /\ sealedTo = {}

Put(f, q, c) == [x \in DOMAIN f \cup {q} |-> IF x = q THEN c ELSE f[x]]
File(t, k, p, over, id) == [t |-> t, k |-> k, p |-> p, over |-> over, id |-> id]
Free(q) == TRUE
Run(o) ==
    /\ o.env = ""
    /\ IF ~Succeeds(fs, o, Free)
       THEN /\ fs' = CASE o.mode = "E" -> Put(fs, EncPath(o), File("data", 0, "", 0, nid))
                       [] o.mode = "D" -> Put(fs, o.m, File("data", 0, "", 0, nid))
                       [] OTHER -> fs
            /\ nid' = nid + 1 /\ UNCHANGED <<nk, signed, sealedTo>>
       ELSE /\ fs' = CASE o.mode = "G" -> Put(Put(fs, GenBase(o) \o ".sec", File("sec", nk, GenPass(o).p, 0, nid)),
                                             GenBase(o) \o ".pub", File("pub", nk, "", 0, nid + 1))
                       [] o.mode = "S" -> Put(fs, SigPath(o), File("sig", fs[SecPath(o)].k, "", fs[o.m].id, nid))
                       [] o.mode = "E" -> Put(fs, EncPath(o), File("enc", fs[PubPath(o)].k, "", fs[o.m].id, nid))
                       \* The content sealed appears again.
                       [] o.mode = "D" -> Put(fs, o.m, File("data", 0, "", 0, fs[o.c].over))
                       [] OTHER -> fs
            /\ nid' = nid + 2
            /\ nk' = IF o.mode = "G" THEN nk + 1 ELSE nk
            /\ signed' = IF o.mode = "S" THEN signed \cup {<<fs[SecPath(o)].k, fs[o.m].id>>} ELSE signed
            /\ sealedTo' = IF o.mode = "E" THEN sealedTo \cup {<<fs[PubPath(o)].k, fs[o.m].id>>} ELSE sealedTo
Environment(o) ==
    /\ o.env # ""
    /\ fs' = CASE o.env = "write" -> Put(fs, o.dst, File("data", 0, "", 0, nid))
               [] o.env = "copy" -> Put(fs, o.dst, fs[o.src])
               [] o.env = "damage" -> Put(fs, o.dst, File("data", 0, "", 0, nid))
               [] o.env = "delete" -> Put(fs, o.dst, None)
               \* A key pair made elsewhere.
               [] o.env = "key" -> Put(Put(fs, o.dst \o ".sec", File("sec", nk, o.src, 0, nid)), o.dst \o ".pub", File("pub", nk, "", 0, nid + 1))
    /\ nid' = nid + 2
    /\ nk' = IF o.env = "key" THEN nk + 1 ELSE nk
    /\ UNCHANGED <<signed, sealedTo>>
Sensible(o) == CASE o.env = "copy" -> o.src # o.dst /\ Readable(fs[o.src])
                 [] o.env \in {"damage", "delete"} -> Readable(fs[o.dst])
                 [] o.env \in {"write", "key"} -> TRUE
                 [] OTHER -> ~Clash(o)
(* In a simulation: a few operations of every kind, and more often such as   *)
(* succeed.                                                                  *)
Good(o) == o.env = "" /\ Succeeds(fs, o, Free)
ByMode(m) == {o \in OpSet : o.mode = m}
Some(n, S) == IF Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
Candidates ==
    IF ~Sim THEN OpSet \cup EnvSet
    ELSE UNION { Some(1, {o \in ByMode(m) : Good(o)}) : m \in {"G", "S", "V", "E", "D"} }
         \cup Some(1, OpSet)
         \cup UNION { Some(1, {o \in EnvSet : o.env = e /\ Sensible(o)}) : e \in {"copy", CASE Len(ops) % 3 = 0 -> "write" [] Len(ops) % 3 = 1 -> "damage" [] OTHER -> "key", "delete"} }
         \cup Some(1, {o \in OpSet : o.mode \in {"V", "D"} /\ Readable(At(fs, IF o.mode = "V" THEN SigPath(o) ELSE o.c))})
Next == /\ Len(ops) < MaxOps
        /\ \E o \in Candidates : Sensible(o) /\ (Run(o) \/ Environment(o)) /\ ops' = Append(ops, o)
Spec == Init /\ [][Next]_vars

(* ---- what follows from the contract ------------------------------------------ *)
(* A signature that verifies was made with that key, for exactly that content. *)
Unforged == \A q \in DOMAIN fs : fs[q].t = "sig" => <<fs[q].k, fs[q].over>> \in signed
Verified == \A o \in {x \in OpSet : x.mode = "V" /\ x.via = "cli"} :
               Succeeds(fs, o, Free) => <<fs[PubPath(o)].k, fs[o.m].id>> \in signed
(* A message that opens was sealed to that key. *)
Sealed == \A o \in {x \in OpSet : x.mode = "D" /\ x.via = "cli"} :
               Succeeds(fs, o, Free) => <<fs[SecPath(o)].k, fs[o.c].over>> \in sealedTo
(* A signature just made verifies, and a message just sealed opens. *)
SignVerify == [][ \A o \in {ops'[Len(ops')]} :
                    (o.mode = "S" /\ Succeeds(fs, o, Free)) =>
                       \A p \in Pubs : fs'[p].t = "pub" /\ fs'[p].k = fs[SecPath(o)].k /\ SigPath(o) # o.m =>
                           Succeeds(fs', [o EXCEPT !.mode = "V", !.p = p], Free) ]_vars
SealOpen == [][ \A o \in {ops'[Len(ops')]} :
                    (o.mode = "E" /\ Succeeds(fs, o, Free)) =>
                       \A s \in Secs : fs'[s].t = "sec" /\ fs'[s].k = fs[PubPath(o)].k =>
                           Succeeds(fs', [o EXCEPT !.mode = "D", !.s = s, !.c = EncPath(o), !.m = "o", !.given = <<fs'[s].p>>], Free) ]_vars
OnlyOutputs == [][ \A o \in {ops'[Len(ops')]} :
                     o.env = "" => \A q \in DOMAIN fs' : At(fs', q) # At(fs, q) => q \in MayChange(o, Succeeds(fs, o, Free)) ]_vars
ResultOK == [][ \A o \in {ops'[Len(ops')]} :
                     (o.env = "" /\ Succeeds(fs, o, Free)) => Result(fs, fs', o, 1 .. nk - 1) ]_vars
KeysKept == [][ \A q \in Secs : fs[q].t = "sec" /\ fs'[q] # fs[q] => ops'[Len(ops')].env # "" ]_vars

Emit == Len(ops) = MaxOps => PrintT("CASE " \o ToJson([fam |-> "history", ops |-> ops]))
View == <<fs, nk, nid, signed, sealedTo, Len(ops)>>
=============================================================================
