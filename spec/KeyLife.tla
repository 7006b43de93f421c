------------------------------ MODULE KeyLife -------------------------------
(* Secret keys as psignify handles them: the key material in memory is XORed *)
(* with the mask that the passphrase yields, checked against the checksum,   *)
(* and put back if it does not match.  Key material is symbolic: a set of    *)
(* masks that are applied (XOR toggles membership).                          *)
EXTENDS KeyHandle, FiniteSets, TLC, Json

CONSTANTS Handles, MaxOps, WithDamage

VARIABLES file,   \* [prot, damage]
          mem,    \* handle -> [masks: set of passphrases applied on top of the plain key, bad: key bytes altered]
          spec,   \* handle -> the contract's view
          ops     \* history: the case for replay
vars == <<file, mem, spec, ops>>

Pass == {"right", "wrong", "empty"}
Damages == IF WithDamage THEN {"none", "key", "checksum", "salt", "kdf", "algo"} ELSE {"none"}
Toggle(s, x) == IF x \in s THEN s \ {x} ELSE s \cup {x}

Sound == file.damage = "none" \/ (file.damage = "salt" /\ ~file.prot) \/ (file.damage = "kdf" /\ ~file.prot)
Loadable == file.damage # "algo"
(* With an altered salt every passphrase yields another mask. *)
Mask(p) == IF file.damage = "salt" THEN <<p, "othersalt">> ELSE <<p, "salt">>
Intact(m) == m.masks = {} /\ file.damage \notin {"key", "checksum"}

LoadMem == [masks |-> IF file.prot THEN {<<"right", "salt">>} ELSE {}]
Init == /\ file \in [prot : BOOLEAN, damage : Damages, src : {"file", "generated"}]
        /\ (file.src = "generated" => file.damage = "none")
        /\ mem = [h \in Handles |-> LoadMem]
        /\ spec = [h \in Handles |-> Fresh(file.prot, Sound)]
        /\ ops = <<>>

(* decrypt: [ok, masks] *)
Decrypt(m, p) ==
    IF ~file.prot THEN [ok |-> TRUE, masks |-> m.masks]
    ELSE IF file.damage = "kdf" THEN [ok |-> FALSE, masks |-> m.masks]
    ELSE LET t == Toggle(m.masks, Mask(p))
         IN IF Intact([masks |-> t]) THEN [ok |-> TRUE, masks |-> t]
            ELSE [ok |-> FALSE, masks |-> Toggle(t, Mask(p))]

(* given: a passphrase or "error" *)
ToBoxRun(m, given) ==
    IF Intact(m) THEN [ok |-> TRUE, prompts |-> 0, masks |-> m.masks]
    ELSE IF ~file.prot THEN [ok |-> FALSE, prompts |-> 0, masks |-> m.masks]
    ELSE IF given = "error" THEN [ok |-> FALSE, prompts |-> 1, masks |-> m.masks]
    ELSE LET d == Decrypt(m, given) IN [ok |-> d.ok, prompts |-> 1, masks |-> d.masks]

Log(h, op, given) == ops' = Append(ops, [h |-> h, op |-> op, given |-> given])
GivenClass(g) == IF g = "empty" THEN "wrong" ELSE g

ToBox(h, given) ==
    /\ Loadable
    /\ LET r == ToBoxRun(mem[h], given)
       IN /\ Assert(r.ok = ToBoxSucceeds(spec[h], GivenClass(given)), <<"ToBox", h, given, vars>>)
          /\ Assert(r.prompts \in PromptsFor(spec[h]), <<"prompts", h, given, vars>>)
          /\ mem' = [mem EXCEPT ![h].masks = r.masks]
          /\ spec' = [spec EXCEPT ![h] = ToBoxAfter(@, GivenClass(given))]
    /\ Log(h, "tobox", given) /\ UNCHANGED file
Check(h) ==
    /\ Loadable
    /\ LET ok == Intact(mem[h]) c == CheckResult(spec[h])
       IN Assert(c = "any" \/ ok = (c = "ok"), <<"Check", h, vars>>)
    /\ Log(h, "check", "") /\ UNCHANGED <<file, mem, spec>>
IsEnc(h) == Loadable /\ Log(h, "isenc", "") /\ UNCHANGED <<file, mem, spec>>
(* Signing and opening load the file anew. *)
FileUse(op, given) ==
    /\ LET p == IF ~Loadable THEN [ok |-> FALSE] ELSE
                IF file.prot /\ given = "error" THEN [ok |-> FALSE]
                ELSE LET d == Decrypt(LoadMem, given)
                     IN [ok |-> d.ok /\ Intact([masks |-> d.masks])]
       IN Assert(p.ok = FileUseSucceeds(file.prot, Sound /\ Loadable, GivenClass(given)), <<op, given, vars>>)
    /\ Log("file", op, given) /\ UNCHANGED <<file, mem, spec>>

Next == /\ Len(ops) < MaxOps
        /\ \/ \E h \in Handles : \E g \in Pass \cup {"error"} : ToBox(h, g)
           \/ \E h \in Handles : Check(h) \/ IsEnc(h)
           \/ file.src = "file" /\ \E o \in {"sign", "open"} : \E g \in Pass \cup {"error"} : FileUse(o, g)
Spec == Init /\ [][Next]_vars

(* The key material is either exactly as stored or plain. *)
MaterialOK == \A h \in Handles : mem[h].masks = LoadMem.masks \/ mem[h].masks = {}
NeverUsable == \A h \in Handles : (Loadable /\ ~Sound) => ~Intact(mem[h])
LockedIff == \A h \in Handles : (Sound /\ Loadable) => (spec[h].locked = (mem[h].masks # {}))
(* Behaviours in which the right passphrase comes only at the end.           *)
Patient == Len(ops') <= MaxOps - 3 => ops'[Len(ops')].given # "right"
Emit == Len(ops) = MaxOps => PrintT("CASE " \o ToJson([fam |-> "keylife", file |-> file, ops |-> ops]))
View == <<file, mem, spec>>
=============================================================================
