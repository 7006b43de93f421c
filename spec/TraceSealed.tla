---------------------------- MODULE TraceSealed -----------------------------
(* Traces of sealing and opening against Sealed.                             *)
EXTENDS TraceLib, Sealed
VARIABLE ephs      \* ephemeral keys seen so far
vars == <<l, ephs>>
TInit == l = 1 /\ ephs = {}

(* A sealing operation: `claimed` is the size it was told (or the size of    *)
(* the file), `given` what the source delivered, `fails` whether the source  *)
(* ended in an error, keyok whether the public key is a usable one.          *)
Seal ==
    /\ Is("seal") /\ Returned(ev.res)
    /\ OnAny({"C09", "C14", "C12", "C18"}) =>
          ((ev.keyok /\ ev.given = ev.claimed /\ ~ev.fails /\ ev.via # "fifo") => ev.res = "ok")  \* pipes may be refused
    /\ On("C12") => (ev.keyok \/ ev.res = "err")
    /\ On("C14") => (ev.res = "ok" => WellSealed(ev.out, ev.given))
    /\ On("C18") => (ev.res = "ok" => ev.given = ev.claimed /\ (Contains(ev.out, ev.given) \/ ev.back))
    /\ On("C09") => (ev.res = "ok" => ev.back /\ ev.named)
    /\ On("C13") => ev.eph \notin ephs /\ ev.reuse = 0
    /\ ephs' = IF ev.eph = "" THEN ephs ELSE ephs \cup {ev.eph}

(* Sealing with a source of randomness that has `left` bytes: 32 make an     *)
(* ephemeral key. `again`: another process that was given the same bytes     *)
(* made the same one.                                                        *)
SealScarce == /\ Is("sealscarce") /\ UNCHANGED ephs
              /\ On("C13") => /\ ev.ephs = ev.sealed
                              /\ (ev.left \in 0 .. 31 => ~ev.again)

(* A header written for a message too long to be sealed here. *)
Header == /\ Is("sealhdr") /\ Returned(ev.res)
          /\ On("C14") => (ev.made => ev.countok)
          /\ UNCHANGED ephs

(* Sealing a file too long to be sealed here, stopped after a while. *)
HugeFile == /\ Is("sealhuge")
            /\ On("C09") => (ev.res = "running" \/ (ev.res = "ok" /\ ev.whole))
            /\ UNCHANGED ephs

Open(auth, len, complete, intact) ==
    /\ Returned(ev.res)
    /\ On("C11") => OnlyAuthentic(auth, len, ev.outlen, ev.prefix)
    /\ On("C10") => WholeOrError(auth, len, complete, ev.outlen, ev.prefix, ev.res)
    /\ On("C12") => (auth = "none" => ev.res = "err" /\ ev.outlen = 0)
    /\ On("C03") => (auth = "none" => ev.res = "err")
    /\ OnAny({"C09", "C14", "C18"}) => (intact => ev.res = "ok" /\ ev.outlen = len /\ ev.prefix)
    /\ On("C24") => (ev.base # "" => ev.res = ev.base /\ ev.same)
    /\ UNCHANGED ephs

(* Opening a file put together from the cells of other files. *)
OpenCells ==
    /\ Is("open")
    /\ LET shapes == [op \in {"A", "B"} |-> IF op = "A" THEN ev.shapeA ELSE ev.shapeB]
           auth == HeaderOf(ev.file.hdr, shapes)
       IN /\ Returned(ev.res)
          /\ On("C11") => OnlyAuthentic(auth, IF auth = "none" THEN 0 ELSE ev.lens[auth],
                                        ev.outlen, auth = "none" \/ ev.prefix[auth])
          /\ On("C10") => (ev.res = "ok" =>
                /\ auth # "none" /\ Complete(ev.file, auth, shapes)
                /\ ev.prefix[auth] /\ ev.outlen = ev.lens[auth])
          /\ OnAny({"C09", "C14"}) => ((auth # "none" /\ ev.file.cells = CellsOf(auth, shapes[auth])) => ev.res = "ok")
          /\ UNCHANGED ephs
(* Opening a file altered byte by byte. *)
OpenBytes == Is("openx") /\ Open(ev.auth, ev.len, ev.complete, ev.intact)

(* Sealing or opening from a source and to a destination that fail, for good *)
(* or once: what did not work may be tried again.                            *)
FailIO == /\ Is("failio") /\ Returned(ev.res)
          /\ On("C11") => ev.prefix
          /\ OnAny({"C09", "C10", "C17", "C18"}) => (ev.res = "ok" => ev.complete)
          /\ On("C17") => ((ev.sinkfailed /\ ~ev.once) => ev.res = "err")
          /\ UNCHANGED ephs

(* Deriving an encryption key from a public key that is or is not usable. *)
PubKey == /\ Is("pub") /\ Returned(ev.res)
          /\ On("C12") => (ev.must # "any" => ev.res = ev.must)
          /\ UNCHANGED ephs

(* The nonce counter, stepped at many places: it never comes to a nonce that *)
(* has been used, and (C14) counts big-endian.                               *)
MaxNonce(n) == \A i \in 1 .. Len(n) : n[i] = 255
Successor(n) == LET nines == CHOOSE j \in 0 .. Len(n) - 1 : n[j+1] # 255 /\ \A i \in j + 2 .. Len(n) : n[i] = 255
                IN [i \in 1 .. Len(n) |-> IF i <= nines THEN n[i] ELSE IF i = nines + 1 THEN n[i] + 1 ELSE 0]
Fresh(steps) == \A i \in 1 .. Len(steps) :
    LET s == steps[i]
    IN s.ok => /\ \E j \in 1 .. Len(s.after) : s.after[j] # 0
               /\ \A k \in 1 .. i - 1 : steps[k].ok /\ steps[k].before # s.before => steps[k].after # s.after
Counts(steps) == \A i \in 1 .. Len(steps) :
    LET s == steps[i] IN IF MaxNonce(s.before) THEN ~s.ok ELSE s.ok /\ s.after = Successor(s.before)
\* "= TRUE": a value, not a set of successor states.
Nonces ==
    /\ Is("nonces") /\ Returned(ev.res)
    /\ On("C13") => Fresh(ev.steps) = TRUE
    /\ On("C14") => Counts(ev.steps) = TRUE
    /\ UNCHANGED ephs

TNext == FailIO \/ SealScarce \/ Nonces \/ HugeFile \/ Seal \/ Header \/ OpenCells \/ OpenBytes \/ PubKey
TSpec == TInit /\ [][TNext]_vars
=============================================================================
