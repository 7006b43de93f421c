----------------------------- MODULE PsignifyCli -----------------------------
(* Command lines: every combination of a mode and of given and omitted       *)
(* arguments, in several states of the files.  Key pair 1 is the default     *)
(* one ("a"), key pair 2 is "b"; m, m.sig and m.enc are what the defaults    *)
(* name, x and c are given explicitly.                                       *)
EXTENDS Psignify, TLC, Json
CONSTANT Full
VARIABLES variant, o
vars == <<variant, o>>

F(t, k, p, over, id) == [t |-> t, k |-> k, p |-> p, over |-> over, id |-> id]
Base0 == [q \in {"m", "n"} |-> F("data", 0, "", 0, IF q = "m" THEN 1 ELSE 2)]
KeyA(p) == ("a.sec" :> F("sec", 1, p, 0, 11) @@ "a.pub" :> F("pub", 1, "", 0, 12))
KeyB(p) == ("b.sec" :> F("sec", 2, p, 0, 21) @@ "b.pub" :> F("pub", 2, "", 0, 22))
Made(k1, k2) == ("m.sig" :> F("sig", k1, "", 1, 31) @@ "x" :> F("sig", k2, "", 1, 32)
                 @@ "m.enc" :> F("enc", k1, "", 1, 33) @@ "c" :> F("enc", k2, "", 2, 34))
Variants == {"full", "crossed", "prot", "nokey", "fresh", "onlykeys"}
FS(v) == CASE v = "full"     -> Base0 @@ KeyA("") @@ KeyB("") @@ Made(1, 2)
           [] v = "crossed"  -> Base0 @@ KeyA("") @@ KeyB("") @@ Made(2, 1)
           [] v = "prot"     -> Base0 @@ KeyA("p") @@ KeyB("q") @@ Made(1, 2)
           [] v = "nokey"    -> Base0 @@ KeyB("") @@ Made(2, 2)
           [] v = "fresh"    -> Base0
           [] v = "onlykeys" -> Base0 @@ KeyA("") @@ KeyB("")
Opt(S) == S \cup {""}
Modes == {"", "G", "S", "V", "E", "D"}
Relevant(mode) == CASE mode = "G" -> {"p"} [] mode = "S" -> {"s", "m", "x"} [] mode = "V" -> {"p", "m", "x"}
                    [] mode = "E" -> {"p", "m", "c"} [] mode = "D" -> {"s", "m", "c"} [] OTHER -> {}
GivenSets(v, mode) == IF v = "prot" \/ mode = "G" THEN {<<"error">>, <<"p">>, <<"q">>, <<"r">>, <<"p", "p">>, <<"p", "q">>, <<"q", "error">>} ELSE {<<>>}
Arg(mode, f, yes) == IF yes THEN CASE f = "s" -> "b.sec" [] f = "p" -> (IF mode = "G" THEN "b" ELSE "b.pub")
                                   [] f = "m" -> "m" [] f = "x" -> "x" [] f = "c" -> "c" ELSE ""
Op(mode, sub, n, g) ==
    [via |-> "cli", mode |-> mode, s |-> Arg(mode, "s", "s" \in sub), p |-> Arg(mode, "p", "p" \in sub),
     m |-> Arg(mode, "m", "m" \in sub), x |-> Arg(mode, "x", "x" \in sub), c |-> Arg(mode, "c", "c" \in sub),
     n |-> n, given |-> IF n THEN <<>> ELSE g, odd |-> "", base |-> "a", env |-> "", src |-> "", dst |-> ""]
Subs(mode) == IF Full THEN SUBSET {"s", "p", "m", "x", "c"}
              ELSE SUBSET Relevant(mode) \cup {{"s", "p", "m", "x", "c"}}
Init == /\ variant \in Variants
        /\ o \in UNION { { Op(mode, sub, n, g) : sub \in Subs(mode), n \in {FALSE, mode = "G"}, g \in GivenSets(variant, mode) } : mode \in Modes }
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Free(q) == TRUE
fs == FS(variant)
(* The files an operation reads. *)
Inputs == CASE o.mode = "S" -> {SecPath(o), o.m} [] o.mode = "V" -> {PubPath(o), o.m, SigPath(o)}
            [] o.mode = "E" -> {PubPath(o), o.m} [] o.mode = "D" -> {SecPath(o), o.c}
            [] o.mode = "G" -> Outputs(o) [] OTHER -> {}
(* No other file has an influence: an explicit argument takes precedence.    *)
OnlyInputs == \A q \in DOMAIN fs \ Inputs :
                 Succeeds([fs EXCEPT ![q] = None], o, Free) = Succeeds(fs, o, Free)
(* The commands agree on the default names. *)
Agree == LET g == [o EXCEPT !.mode = "G", !.p = ""] 
             noKeys == [o EXCEPT !.s = "", !.p = ""]
         IN Outputs(g) = {SecPath(noKeys), PubPath(noKeys)}
Explicit == /\ o.s # "" => SecPath(o) = o.s
            /\ o.p # "" /\ o.mode # "G" => PubPath(o) = o.p
            /\ o.x # "" => SigPath(o) = o.x
            /\ o.c # "" => EncPath(o) = o.c
NothingRequired == o.mode = "" => ~Succeeds(fs, o, Free) /\ Outputs(o) = {}
Emit == PrintT("CASE " \o ToJson([fam |-> "history", variant |-> variant, ops |-> <<o>>]))
=============================================================================
