---------------------------- MODULE DecoderImpl -----------------------------
(* The decoder as it is built: it takes as many characters from the source   *)
(* as make up the bytes asked for, and keeps decoded bytes that did not fit. *)
(* TLC checks every Read against the contract and emits every sequence of    *)
(* read sizes as a case.                                                     *)
EXTENDS Decoder, TLC, Json

CONSTANTS ByteCounts, ReadSizes, Breaks, Defects
(* Breaks: a set of sequences of line lengths.  Defects: a set of records    *)
(* [kind, pos, val]: "none", "cut" (text ends after pos characters), "set"   *)
(* (the character at pos is replaced by val), "ins" (val is inserted there), *)
(* "fail" (the source fails at pos).                                         *)

VARIABLES src,    \* text not yet taken from the source, without line breaks
          rest,   \* decoded bytes not yet returned
          fails,  \* the source fails at its end
          case    \* history: the case for replay
implVars == <<want, verdict, pos, phase, src, rest, fails, case>>

Byte(i) == (i * 91 + 7) % 256
Plain(n) == [i \in 1 .. n |-> Byte(i)]

RECURSIVE Broken(_, _, _)
Broken(t, brk, i) ==
    IF t = <<>> \/ brk = <<>> THEN t
    ELSE LET w == Min(brk[(i % Len(brk)) + 1], Len(t))
         IN SubSeq(t, 1, w) \o <<LF>> \o Broken(SubSeq(t, w + 1, Len(t)), brk, i + 1)

Spoil(t, d) ==
    CASE d.kind = "none" -> t
      [] d.kind \in {"cut", "fail"} -> SubSeq(t, 1, Min(d.pos, Len(t)))
      [] d.kind = "set" -> IF d.pos < Len(t) THEN [t EXCEPT ![d.pos + 1] = d.val] ELSE t
      [] d.kind = "ins" -> SubSeq(t, 1, Min(d.pos, Len(t))) \o <<d.val>> \o SubSeq(t, d.pos + 1, Len(t))

Init ==
    \E n \in ByteCounts, b \in Breaks, d \in Defects :
        LET whole == Broken(Encode(Plain(n)), b, 0)
            t == Spoil(whole, d)
            m == Meaning(t, d.kind = "fail")
        IN /\ want = m.bytes /\ verdict = m.verdict /\ pos = 0 /\ phase = "open"
           /\ src = NoBreaks(t) /\ rest = <<>> /\ fails = (d.kind = "fail")
           /\ case = [fam |-> "dec", text |-> IF d.kind = "fail" THEN whole ELSE t,
                      fail |-> IF d.kind = "fail" THEN Len(t) ELSE -1, sizes |-> <<>>]

(* Take k characters (line breaks do not count) from text t.                 *)
Take(t, k) == [taken |-> SubSeq(t, 1, Min(k, Len(t))), left |-> SubSeq(t, k + 1, Len(t))]

Result(size) ==
    LET have == Min(size, Len(rest))
        d1 == SubSeq(rest, 1, have)
        rest1 == SubSeq(rest, have + 1, Len(rest))
    IN IF have = size THEN [data |-> d1, res |-> "ok", rest |-> rest1, src |-> src]
       ELSE LET need == 4 * ((size - have + 2) \div 3)
                tk == Take(src, need)
                ranOut == Len(tk.taken) < need
            IN IF ranOut /\ fails
               THEN [data |-> d1, res |-> "err", rest |-> rest1, src |-> tk.left]
               ELSE LET d == Decode(tk.taken)
                        m == Min(Len(d.bytes), size - have)
                        data == d1 \o SubSeq(d.bytes, 1, m)
                    IN [data |-> data,
                        res |-> IF ~d.ok THEN "err" ELSE IF data = <<>> THEN "eof" ELSE "ok",
                        rest |-> SubSeq(d.bytes, m + 1, Len(d.bytes)), src |-> tk.left]

Read(size) ==
    /\ phase = "open"
    /\ LET r == Result(size)
       IN /\ Assert(DecReadAllowed(size, r.data, r.res), <<"Read breaks the contract", size, r, implVars>>)
          /\ DecReadEffect(r.data, r.res)
          /\ rest' = r.rest /\ src' = r.src
          /\ case' = [case EXCEPT !.sizes = Append(@, size)]
          /\ UNCHANGED fails

Next == \E s \in ReadSizes : Read(s)
Spec == Init /\ [][Next]_implVars /\ WF_implVars(\E s \in ReadSizes \ {0} : Read(s))

(* One case per maximal sequence; how the source divides its data is varied  *)
(* from case to case.                                                        *)
SegKinds == << <<>>, <<1>>, <<0, 1>>, <<2, 3>>, <<0, 0, 5, 1>>, <<4>>, <<3, 1, 0>> >>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) * Len(s) + Sum(Tail(s))
Emit == phase # "open" =>
          LET h == Sum(case.sizes) + Len(case.text)
          IN PrintT("CASE " \o ToJson([case EXCEPT !.fam = "dec"] @@
               [segs |-> SegKinds[(h % Len(SegKinds)) + 1],
                eofd |-> h % 2 = 0, failw |-> h % 3 = 0]))

(* At most two empty reads in a row (bounds the exploration). *)
FewEmpty == \A i \in 1 .. Len(case.sizes) - 1 : case.sizes[i] = 0 => case.sizes[i+1] # 0
DeliveredPrefix == verdict # "loose" => pos <= Len(want)
CleanMeansAll == phase = "ended" /\ verdict # "loose" => verdict = "clean" /\ pos = Len(want)
BadIsNoticed == phase = "ended" => verdict # "bad"
(* Reads of nonzero size always reach an end (checked without history).      *)
Finishes == <>(phase # "open")
NoHistory == <<want, verdict, pos, phase, src, rest, fails>>
=============================================================================
