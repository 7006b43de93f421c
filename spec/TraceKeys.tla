------------------------------ MODULE TraceKeys ------------------------------
(* Histories of secret keys against KeyHandle.  Passphrases are byte         *)
(* sequences here; what the prompt gave is "error" or is compared with the   *)
(* passphrase of the key.                                                    *)
EXTENDS TraceLib, KeyHandle
VARIABLES hs,    \* handle -> contract state
          key    \* [pass, sound] of the key at hand
vars == <<l, hs, key>>
TInit == l = 1 /\ hs = [h \in {} |-> <<>>] /\ key = [pass |-> <<>>, sound |-> TRUE]

Prot == key.pass # <<>>
Given == IF ev.prompterr THEN "error" ELSE IF ev.given = key.pass THEN "right" ELSE "wrong"
PromptOK(allowed) ==
    On("C23") =>
      /\ ev.prompts \in allowed
      /\ ev.confirms = 0
      /\ ev.wiped
      /\ (ev.prompts > 0 /\ ev.prompterr => ev.res = "err" /\ ev.sameerr)
(* Deriving the key from an intact key object, or using an intact file.      *)
Outcome(want) == /\ (ev.res = "ok") = want
                 /\ ev.res = "ok" => ev.right
                 /\ ev.res = "err" => ~ev.out

(* A key is generated, or made by the reference implementation, and loaded.  *)
(* A key file that is damaged or not supported may be refused.               *)
New == /\ Is("key") /\ Returned(ev.res)
       /\ OnAny({"C05", "C06", "C23"}) /\ ev.sound => ev.res = "ok"
       /\ key' = [pass |-> ev.pass, sound |-> ev.sound]
       /\ hs' = [h \in {"h1", "h2"} |-> Fresh(ev.pass # <<>>, ev.sound)]

(* A new key pair as it is stored.  isenc: what the loaded key reports;      *)
(* recrounds: the rounds recorded; masked: the stored key is the key         *)
(* material masked by the KDF of exactly this passphrase, salt and rounds.   *)
(* rounds: as asked for; "odd" if it cannot be honoured.                     *)
Generated ==
    /\ Is("gen") /\ Returned(ev.res)
    /\ On("C05") =>
         IF ev.pass = <<>> \/ ~ev.odd
         THEN /\ ev.res = "ok"
              /\ ev.isenc = (ev.pass # <<>>)
              /\ ev.recrounds = (IF ev.pass = <<>> THEN 0 ELSE ev.rounds)
              /\ ev.masked
         ELSE ev.res = "err"
    /\ UNCHANGED <<hs, key>>

ToBox ==
    /\ Is("tobox") /\ Returned(ev.res)
    /\ LET h == hs[ev.h]
       IN /\ OnAny({"C04", "C05", "C06"}) => Outcome(ToBoxSucceeds(h, Given))
          /\ PromptOK(PromptsFor(h))
          /\ hs' = [hs EXCEPT ![ev.h] = ToBoxAfter(@, Given)]
          /\ UNCHANGED key
Check ==
    /\ Is("check") /\ Returned(ev.res)
    /\ OnAny({"C04", "C06"}) => (LET c == CheckResult(hs[ev.h]) IN c = "any" \/ ev.res = c)
    /\ On("C23") => ev.prompts = 0
    /\ UNCHANGED <<hs, key>>
IsEnc ==
    /\ Is("isenc") /\ ev.res = "ok"
    /\ On("C05") /\ key.sound => ev.val = hs[ev.h].prot
    /\ On("C23") => ev.prompts = 0
    /\ UNCHANGED <<hs, key>>
FileUse ==
    /\ Is("fileuse") /\ Returned(ev.res)
    /\ OnAny({"C04", "C05", "C06"}) => Outcome(FileUseSucceeds(Prot, key.sound, Given))
    /\ PromptOK(IF ~Prot THEN {0} ELSE IF key.sound THEN {1} ELSE {0, 1})
    /\ UNCHANGED <<hs, key>>
(* Operations that need no secret key. *)
PublicUse ==
    /\ Is("pubuse") /\ Returned(ev.res)
    /\ On("C23") => ev.prompts = 0
    /\ UNCHANGED <<hs, key>>
(* Signing or opening that fails for another reason. *)
OtherFailure ==
    /\ Is("failuse") /\ Returned(ev.res)
    /\ On("C23") => /\ ev.res = "err"
                    /\ ev.prompts \in (IF Prot THEN {0, 1} ELSE {0})
                    /\ ev.confirms = 0 /\ ev.wiped
    /\ UNCHANGED <<hs, key>>
TNext == New \/ Generated \/ ToBox \/ Check \/ IsEnc \/ FileUse \/ PublicUse \/ OtherFailure
TSpec == TInit /\ [][TNext]_vars
=============================================================================
