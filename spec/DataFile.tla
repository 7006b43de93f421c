------------------------------ MODULE DataFile ------------------------------
(* Key and signature files, byte by byte: which files must be accepted,      *)
(* which must be refused, and what their records mean.                       *)
EXTENDS Base64, FiniteSets

Prefix == <<117,110,116,114,117,115,116,101,100,32,99,111,109,109,101,110,116,58,32>>  \* "untrusted comment: "
ED == <<69, 100>>
BK == <<66, 75>>
MaxComment == 1024
LengthOf(kind) == CASE kind = "pub" -> 42 [] kind = "sig" -> 74 [] kind = "sec" -> 104

StartsWith(s, p) == Len(s) >= Len(p) /\ \A i \in 1 .. Len(p) : s[i] = p[i]
Breaks(f) == SelectSeq([i \in 1 .. Len(f) |-> i], LAMBDA i : f[i] = LF)
(* The lines of a file, without their line breaks. *)
Lines(f) == LET b == Breaks(f)
                n == Len(b)
                open == IF n = 0 THEN Len(f) > 0 ELSE b[n] < Len(f)
                start(k) == IF k = 1 THEN 1 ELSE b[k-1] + 1
            IN [k \in 1 .. n + (IF open THEN 1 ELSE 0) |->
                   SubSeq(f, start(k), IF k <= n THEN b[k] - 1 ELSE Len(f))]
NoCR(t) == SelectSeq(t, LAMBDA c : c # CR)

(* The form every implementation writes: a comment line, a payload line. *)
Strict(f, kind) ==
    LET ls == Lines(f)
    IN /\ Len(ls) = 2
       /\ StartsWith(ls[1], Prefix) /\ Len(ls[1]) <= MaxComment
       /\ LET d == Decode(ls[2])
          IN d.ok /\ Len(d.bytes) = LengthOf(kind) /\ Encode(d.bytes) = ls[2]
StrictPayload(f) == Decode(Lines(f)[2]).bytes

(* Everything a tolerant reader might take for the payload. A file without   *)
(* any such text must be refused.                                            *)
Payload(t, kind) == LET s == NoCR(t)
                        n == Len(s)
                    IN IF n # 4 * ((LengthOf(kind) + 2) \div 3) THEN {}
                       ELSE LET d == Decode(s)
                            IN IF d.ok /\ Len(d.bytes) = LengthOf(kind) THEN {d.bytes} ELSE {}
RECURSIVE JoinFrom(_, _)
JoinFrom(ls, k) == IF k > Len(ls) THEN <<>> ELSE ls[k] \o JoinFrom(ls, k + 1)
MayPayloads(f, kind) ==
    LET ls == Lines(f)
    IN UNION { Payload(ls[k], kind) : k \in 1 .. Len(ls) }
       \cup (IF Len(ls) > 2 THEN Payload(JoinFrom(ls, 2), kind) ELSE {})

(* ---- records ------------------------------------------------------------- *)
Algo(p) == SubSeq(p, 1, 2)
PubNum(p) == SubSeq(p, 3, 10)
PubKey(p) == SubSeq(p, 11, 42)
SigNum(p) == SubSeq(p, 3, 10)
SigOf(p) == SubSeq(p, 11, 74)
Kdf(p) == SubSeq(p, 3, 4)
Rounds(p) == <<SubSeq(p, 5, 6), SubSeq(p, 7, 8)>>       \* two halves: 32 bits
Protected(p) == \E i \in 5 .. 8 : p[i] # 0
Salt(p) == SubSeq(p, 9, 24)
Checksum(p) == SubSeq(p, 25, 32)
SecNum(p) == SubSeq(p, 33, 40)
SecKey(p) == SubSeq(p, 41, 104)

(* ---- verification ---------------------------------------------------------- *)
(* Valid(key, sig): the signature is valid for the message at hand.          *)
Authentic(pub, sig, Valid(_, _)) ==
    /\ Algo(pub) = ED /\ Algo(sig) = ED
    /\ PubNum(pub) = SigNum(sig)
    /\ Valid(PubKey(pub), SigOf(sig))
MustVerify(pf, sf, Valid(_, _)) ==
    /\ Strict(pf, "pub") /\ Strict(sf, "sig")
    /\ Authentic(StrictPayload(pf), StrictPayload(sf), Valid)
MayVerify(pf, sf, Valid(_, _)) ==
    \E p \in MayPayloads(pf, "pub"), s \in MayPayloads(sf, "sig") : Authentic(p, s, Valid)

(* ---- secret keys ------------------------------------------------------------ *)
(* Unlocks(p): with the passphrase supplied, the key matches its checksum.   *)
Usable(p, Unlocks(_)) == /\ Algo(p) = ED
                         /\ Protected(p) => Kdf(p) = BK
                         /\ Unlocks(p)
MustUse(f, Unlocks(_)) == /\ Strict(f, "sec") /\ Usable(StrictPayload(f), Unlocks)
                          /\ Kdf(StrictPayload(f)) = BK
(* A record that names KDF rounds although its key is stored plain is not    *)
(* specified: nothing was altered that protects the key.                     *)
MayUse(f, Unlocks(_), Plain(_)) ==
    \E p \in MayPayloads(f, "sec") : Usable(p, Unlocks) \/ (Algo(p) = ED /\ Protected(p) /\ Plain(p))
=============================================================================
