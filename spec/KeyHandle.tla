----------------------------- MODULE KeyHandle ------------------------------
(* Contract of a loaded or generated secret key and of the operations that   *)
(* use a secret key file.  A handle is                                       *)
(*   [prot: passphrase-protected, sound: undamaged and supported,            *)
(*    locked: its passphrase is still needed]                                *)
(* What the prompt gives is "right", "wrong" (any other passphrase, also the *)
(* empty one) or "error".                                                    *)
EXTENDS Integers, Sequences

Fresh(prot, sound) == [prot |-> prot, sound |-> sound, locked |-> prot]

(* Deriving the encryption key. *)
ToBoxSucceeds(h, given) == h.sound /\ (h.locked => given = "right")
ToBoxAfter(h, given) == IF h.sound /\ h.locked /\ given = "right" THEN [h EXCEPT !.locked = FALSE] ELSE h
(* How often the passphrase is asked for.  A key that is damaged may be      *)
(* refused before or after asking.                                           *)
PromptsFor(h) == IF ~h.locked THEN {0} ELSE IF h.sound THEN {1} ELSE {0, 1}

(* The integrity check: "any" where it is not specified. *)
CheckResult(h) == IF h.locked THEN "err" ELSE IF h.sound THEN "ok" ELSE "any"

(* Signing or opening with the key file (always loaded anew). *)
FileUseSucceeds(prot, sound, given) == sound /\ (prot => given = "right")
=============================================================================
