---------------------------- MODULE VerifyDesign ----------------------------
(* Verification over symbolic files: all mixtures of the parts of valid      *)
(* public keys and signatures.  The checks, in the order in which they are   *)
(* made, accept exactly the authentic ones.                                  *)
EXTENDS Integers, Sequences, TLC, Json
Keys == {1, 2}
Msgs == {1, 2}
Algos == {"Ed", "ed", "Ee"}
Lens == {-1, 0, 1}           \* payload shorter, exact, longer

VARIABLES pub, sig, msg, pc, verdict
vars == <<pub, sig, msg, pc, verdict>>
Pub == [algo : Algos, num : Keys, key : Keys, len : Lens]
Sig == [algo : Algos, num : Keys, signer : Keys, over : Msgs, bad : BOOLEAN, len : Lens]

Init == /\ pub \in Pub /\ sig \in Sig /\ msg \in Msgs
        /\ pc = "pubfile" /\ verdict = "none"

Step(at, ok, next) == /\ pc = at
                      /\ pc' = (IF ok THEN next ELSE "done")
                      /\ verdict' = (IF ~ok THEN "err" ELSE IF next = "done" THEN "ok" ELSE "none")
                      /\ UNCHANGED <<pub, sig, msg>>
Next == \/ Step("pubfile", pub.len = 0, "sigfile")
        \/ Step("sigfile", sig.len = 0, "pubalgo")
        \/ Step("pubalgo", pub.algo = "Ed", "sigalgo")
        \/ Step("sigalgo", sig.algo = "Ed", "num")
        \/ Step("num", pub.num = sig.num, "crypto")
        \/ Step("crypto", sig.signer = pub.key /\ sig.over = msg /\ ~sig.bad, "done")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Authentic == /\ pub.len = 0 /\ sig.len = 0 /\ pub.algo = "Ed" /\ sig.algo = "Ed"
             /\ pub.num = sig.num /\ pub.key = sig.signer /\ sig.over = msg /\ ~sig.bad
Exactly == pc = "done" => (verdict = "ok") = Authentic
Decides == <>(pc = "done")
Emit == pc = "done" => PrintT("CASE " \o ToJson([fam |-> "verify", pub |-> pub, sig |-> sig, msg |-> msg]))
=============================================================================
