----------------------------- MODULE TraceFiles -----------------------------
(* Operations on key and signature files against DataFile.                   *)
EXTENDS TraceLib, DataFile
VARIABLES sigs
vars == <<l, sigs>>
TInit == l = 1 /\ sigs = {}
Same == UNCHANGED sigs

(* ed: triples <<public key, signature, valid for the message>>.             *)
Verify ==
    /\ Is("verify") /\ Returned(ev.res) /\ Same
    /\ LET Valid(k, s) == \E i \in 1 .. Len(ev.ed) : ev.ed[i][1] = k /\ ev.ed[i][2] = s /\ ev.ed[i][3]
       IN /\ OnAny({"C02", "C26"}) =>
                (ev.readable /\ MustVerify(ev.pub, ev.sig, Valid) => ev.res = "ok")
          /\ On("C02") =>
                (ev.res = "ok" => ev.readable /\ MayVerify(ev.pub, ev.sig, Valid))
          /\ On("C03") =>
                (ev.res = "ok" => /\ ev.readable /\ MayPayloads(ev.pub, "pub") # {}
                                  /\ MayPayloads(ev.sig, "sig") # {})
          /\ On("C24") => (ev.base # "" => ev.res = ev.base)

(* Loading a key file. *)
Load ==
    /\ Is("load") /\ Returned(ev.res) /\ Same
    /\ On("C03") =>
          (ev.res = "ok" => ev.readable /\ MayPayloads(ev.file, ev.kind) # {})
    /\ On("C24") => (ev.base # "" => ev.res = ev.base)
    /\ On("C26") =>
          (ev.readable /\ Strict(ev.file, ev.kind) /\ Algo(StrictPayload(ev.file)) = ED
           /\ (ev.kind = "sec" => Kdf(StrictPayload(ev.file)) = BK)
              => /\ ev.res = "ok"
                 /\ ev.kind = "sec" => ev.isenc = Protected(StrictPayload(ev.file)))

(* Using a secret key (op: "sign", "open" or "tobox").  unlocks: triples     *)
(* <<record, whether the passphrase supplied unlocks it, whether the key is  *)
(* stored plain and intact>>.  out: whether any *)
(* output was left; right: whether it is the right one.                      *)
Use ==
    /\ Is("use") /\ Returned(ev.res) /\ Same
    /\ LET Unlocks(p) == \E i \in 1 .. Len(ev.unlocks) : ev.unlocks[i][1] = p /\ ev.unlocks[i][2]
           Plain3(p) == \E i \in 1 .. Len(ev.unlocks) : ev.unlocks[i][1] = p /\ ev.unlocks[i][3]
       IN /\ OnAny({"C04", "C26"}) =>
                (ev.readable /\ MustUse(ev.file, Unlocks) => ev.res = "ok" /\ ev.right)
          /\ On("C04") =>
                (ev.res = "ok" => ev.readable /\ MayUse(ev.file, Unlocks, Plain3))
          /\ On("C03") =>
                (ev.res = "ok" => ev.readable /\ MayPayloads(ev.file, "sec") # {})
          /\ On("C24") => (ev.base # "" => ev.res = ev.base /\ (ev.res = "ok" => ev.same))
          /\ On("C04") => (ev.res = "err" => ~ev.out)

(* A file psignify wrote: exactly the signify form, with these contents.     *)
(* Fields that are not known in advance are absent from `want`.              *)
Field(p, kind, f) ==
    CASE f = "algo" -> Algo(p)
      [] f = "num" -> IF kind = "sec" THEN SecNum(p) ELSE PubNum(p)
      [] f = "key" -> IF kind = "pub" THEN PubKey(p) ELSE SecKey(p)
      [] f = "sig" -> SigOf(p)
      [] f = "kdf" -> Kdf(p)
      [] f = "rounds" -> SubSeq(p, 5, 8)
      [] f = "salt" -> Salt(p)
      [] f = "checksum" -> Checksum(p)
Written ==
    /\ Is("written") /\ Returned(ev.res) /\ Same
    /\ On("C26") =>
          /\ ev.res = "ok"
          /\ Strict(ev.file, ev.kind) /\ ev.file[Len(ev.file)] = LF
          /\ \A f \in DOMAIN ev.want : Field(StrictPayload(ev.file), ev.kind, f) = ev.want[f]

(* An operation on files that are missing, directories, or garbage. *)
Plain == /\ Is("op") /\ Returned(ev.res) /\ Same
         /\ On("C03") => (ev.must = "err" => ev.res = "err")

(* Signing a file of gigabytes, verifying it, and verifying it when it has   *)
(* been altered.                                                             *)
HugeSig == /\ Is("hugesig") /\ Same
           /\ On("C01") => ev.sign = "ok" /\ ev.ref /\ ev.verify = "ok"
           /\ On("C02") => ev.verify = "ok" /\ \A i \in 1 .. Len(ev.altered) : ev.altered[i] = "err"
TNext == HugeSig \/ Verify \/ Load \/ Use \/ Written \/ Plain
TSpec == TInit /\ [][TNext]_vars
=============================================================================
