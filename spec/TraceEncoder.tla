---------------------------- MODULE TraceEncoder ----------------------------
(* Traces of the real encoder against its contract.                          *)
EXTENDS TraceLib, Encoder
vars == <<l, given, sink, status>>
TInit == l = 1 /\ EncInit
New == /\ Is("enc.new")
       /\ given' = <<>> /\ sink' = <<>> /\ status' = "open"
DoWrite == /\ Is("enc.write") /\ Returned(ev.res) /\ ev.kept
           /\ EncWrite(ev.p, ev.n, ev.res = "err", ev.sinkfailed, ev.once, ev.delta)
DoClose == /\ Is("enc.close") /\ Returned(ev.res)
           /\ EncClose(ev.res = "err", ev.sinkfailed, ev.once, ev.delta)
(* Large writes: to divide them into small ones makes no difference.         *)
Big == /\ Is("enc.big") /\ Returned(ev.res) /\ ev.kept
       /\ IF ev.sinkfailed THEN ev.res = "err" /\ ev.prefix
          ELSE ev.res = "ok" /\ ev.wrote = ev.sizes /\ ev.same
       /\ UNCHANGED <<given, sink, status>>
TNext == Big \/ New \/ DoWrite \/ DoClose
TSpec == TInit /\ [][TNext]_vars
=============================================================================
