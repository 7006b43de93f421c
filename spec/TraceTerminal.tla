---------------------------- MODULE TraceTerminal ----------------------------
(* The command at a terminal, recorded: what the terminal was like, each     *)
(* line typed and whether it was echoed, and how it ended.                   *)
EXTENDS TraceLib
VARIABLES was
vars == <<l, was>>
TInit == l = 1 /\ was = TRUE
Start == Is("terminal") /\ was' = ev.echo
Typed == /\ Is("typed") /\ UNCHANGED was
         /\ On("C28") => (ev.echo => ev.empty)
Ended == /\ Is("ended") /\ UNCHANGED was /\ Returned(ev.res)
         \* Neither passphrases nor parts of the key on the terminal, on the
         \* outputs, or in files other than those of secret keys.
         /\ On("C28") => /\ Len(ev.shown) = 0 /\ Len(ev.kept) = 0
                         /\ ~ev.gone => (ev.asbefore /\ ev.echo = was)
TNext == Start \/ Typed \/ Ended
TSpec == TInit /\ [][TNext]_vars
=============================================================================
