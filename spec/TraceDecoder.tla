---------------------------- MODULE TraceDecoder ----------------------------
(* Traces of the real decoder against its contract.                          *)
EXTENDS TraceLib, Decoder
vars == <<l, want, verdict, pos, phase>>
TInit == l = 1 /\ want = <<>> /\ verdict = "clean" /\ pos = 0 /\ phase = "ended"
New == /\ Is("dec.new")
       /\ DecNew(Meaning(IF ev.fail >= 0 THEN SubSeq(ev.text, 1, ev.fail) ELSE ev.text,
                         ev.fail >= 0))
DoRead == /\ Is("dec.read") /\ ~ev.over
          /\ ev.n = Len(ev.data)
          /\ DecRead(ev.size, ev.data, ev.res)
Stop == Is("dec.end") /\ DecEnd
TNext == New \/ DoRead \/ Stop
TSpec == TInit /\ [][TNext]_vars
=============================================================================
