------------------------------ MODULE Decoder -------------------------------
(* Contract of the base64 decoder (package base64, Decoder): an io.Reader    *)
(* over text with line breaks.                                               *)
EXTENDS Base64

VARIABLES want,     \* the bytes the text stands for
          verdict,  \* "clean", "bad" (must end in an error) or "loose"
          pos,      \* bytes delivered so far
          phase     \* "open", "ended" (clean end reported), "failed"
decVars == <<want, verdict, pos, phase>>

Has(t, c) == \E i \in 1 .. Len(t) : t[i] = c
PadInside(t) == \E i \in 1 .. Len(t) - 1 : t[i] = PAD /\ t[i+1] # PAD

(* What a source that delivers the text t0 (and then fails, if srcFails)     *)
(* stands for.  Text with carriage returns, or with padding before its end,  *)
(* is left open ("loose").                                                   *)
Meaning(t0, srcFails) ==
    LET t == NoBreaks(t0)
        d == Decode(t)
    IN [bytes |-> d.bytes,
        verdict |-> IF Has(t, CR) \/ PadInside(t) THEN "loose"
                    ELSE IF d.ok /\ ~srcFails THEN "clean" ELSE "bad"]

DecNew(m) == /\ want' = m.bytes /\ verdict' = m.verdict
             /\ pos' = 0 /\ phase' = "open"

(* A read into size bytes that returns the bytes data.                       *)
(* res: "ok" (no error), "eof" (end of the stream), "err" (any other error). *)
DecReadAllowed(size, data, res) ==
    LET n == Len(data)
        end == pos + n
    IN /\ n <= size
       /\ res \in {"ok", "eof", "err"}
       /\ verdict # "loose" =>
             /\ end <= Len(want)
             /\ data = SubSeq(want, pos + 1, end)
             /\ res = "eof" => verdict = "clean" /\ end = Len(want)
             /\ res = "err" => verdict = "bad"
             /\ phase = "ended" => n = 0 /\ (res = "eof" \/ (res = "ok" /\ size = 0))

DecReadEffect(data, res) ==
    /\ pos' = pos + Len(data)
    /\ phase' = CASE res = "eof" -> "ended" [] res = "err" -> "failed" [] OTHER -> phase
    /\ UNCHANGED <<want, verdict>>

DecRead(size, data, res) == DecReadAllowed(size, data, res) /\ DecReadEffect(data, res)

(* The reader of a stream stopped: only after an error or a clean end.       *)
DecEnd == /\ phase \in {"ended", "failed"}
          /\ UNCHANGED decVars
=============================================================================
