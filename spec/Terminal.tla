------------------------------ MODULE Terminal ------------------------------
(* Passphrases typed at a terminal: a command that needs Need(mode) lines    *)
(* turns the echo off, reads a line, and puts the terminal back as it was.   *)
(* The user types when prompted, or goes away. What is typed, and what the   *)
(* key is made of, is never shown, and at the end, however it comes about,   *)
(* the terminal is as it was.                                                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Design  \* "good", or one that is not: "confirm", "leaves", "tells"

Kinds == {"right", "wrong", "empty"}
Need(m) == IF m = "G" THEN 2 ELSE IF m \in {"S", "D"} THEN 1 ELSE 0

VARIABLES mode, lines, was, echo, typed, got, pc, shown, gone, out
vars == <<mode, lines, was, echo, typed, got, pc, shown, gone, out>>

Init == /\ mode \in {"G", "S", "D", "V", "E"} /\ was \in BOOLEAN
        /\ lines \in UNION {[1 .. n -> Kinds] : n \in 0 .. Need(mode)}
        /\ echo = was /\ typed = 0 /\ got = 0 /\ shown = FALSE /\ gone = FALSE /\ out = "none"
        /\ pc = IF Need(mode) = 0 THEN "work" ELSE "prompt"
Same == UNCHANGED <<mode, lines, was>>

Prompt == /\ pc = "prompt" /\ pc' = "reading"
          /\ echo' = IF Design = "confirm" /\ got = 1 THEN echo ELSE FALSE
          /\ Same /\ UNCHANGED <<typed, got, shown, gone, out>>
Type == /\ pc = "reading" /\ typed = got /\ typed < Len(lines)
        /\ typed' = typed + 1 /\ shown' = (shown \/ (echo /\ lines[typed'] # "empty"))
        /\ Same /\ UNCHANGED <<echo, got, pc, gone, out>>
Take == /\ pc = "reading" /\ typed > got /\ got' = got + 1
        /\ echo' = IF Design = "leaves" /\ lines[got'] = "empty" THEN echo ELSE was
        /\ pc' = IF got' = Need(mode) THEN "work" ELSE "prompt"
        /\ Same /\ UNCHANGED <<typed, shown, gone, out>>
(* The terminal goes away: its state is of no interest any more.             *)
Gone == /\ pc = "reading" /\ typed = Len(lines) /\ got = typed /\ Len(lines) < Need(mode)
        /\ pc' = "end" /\ gone' = TRUE /\ out' = "err"
        /\ Same /\ UNCHANGED <<echo, typed, got, shown>>
Work == /\ pc = "work" /\ pc' = "end"
        /\ out' = IF mode = "G" THEN (IF lines[1] = lines[2] THEN "ok" ELSE "err")
                  ELSE IF Need(mode) = 1 /\ lines[1] # "right" THEN "err" ELSE "ok"
        /\ shown' = (shown \/ (Design = "tells" /\ out' = "err"))
        /\ Same /\ UNCHANGED <<echo, typed, got, gone>>
Next == Prompt \/ Type \/ Take \/ Gone \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Hidden == ~shown
Restored == (pc = "end" /\ ~gone) => echo = was
Ends == <>(pc = "end")
Emit == pc = "end" => PrintT("CASE " \o ToJson([fam |-> "terminal", mode |-> mode, lines |-> lines, was |-> was, want |-> out]))
=============================================================================
