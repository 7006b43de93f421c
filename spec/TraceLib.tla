------------------------------ MODULE TraceLib ------------------------------
(* Common parts of the trace specifications: the recorded trace, the cursor, *)
(* and the report of how far the trace could be matched.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
(* The property in focus; constraints of other properties are not enforced.  *)
Focus == IOEnv.FOCUS
On(p) == Focus = p \/ Focus = "ALL"
OnAny(s) == Focus \in s \/ Focus = "ALL"

VARIABLE l
ev == Trace[l]
Is(name) == l <= Len(Trace) /\ ev.ev = name /\ l' = l + 1
Returned(res) == res \in {"ok", "err"}

(* One state per matched line plus the initial one.                          *)
Report == PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1)
                 \o " OF " \o ToString(Len(Trace)))
=============================================================================
