------------------------------- MODULE Sealed -------------------------------
(* Encrypted files: what sealing must produce and what opening must do.      *)
(*                                                                           *)
(* A file is symbolic here: a header with three fields, each taken from some *)
(* sealing operation ("A", "B", "C") or junk ("J"), followed by cells.  A    *)
(* full chunk is two cells, a short last chunk is one.  A cell is <<op,      *)
(* chunk, part, mode>>: mode "ok", "flip" (altered) or "cut" (shortened).    *)
EXTENDS Integers, Sequences, FiniteSets

ChunkSize == 16385

(* ---- sealing ------------------------------------------------------------ *)
ChunksOf(len) == (len + ChunkSize - 1) \div ChunkSize
SizeOf(i, len) == IF (i + 1) * ChunkSize <= len THEN ChunkSize ELSE len - i * ChunkSize

(* chunks: runs <<first, how many, all under their own index as nonce, size  *)
(* of each, contents as in the message>>.  They must cover the message.      *)
RunOK(r, len) ==
    LET last == r[1] + r[2] - 1
    IN /\ r[2] >= 1 /\ r[3] /\ r[5]
       /\ r[4] = SizeOf(r[1], len)
       /\ r[4] = SizeOf(last, len)
RECURSIVE Total(_)
Total(runs) == IF runs = <<>> THEN 0 ELSE Head(runs)[2] + Total(Tail(runs))
WellSealed(out, len) ==
    /\ out.comment /\ out.lines /\ out.decodes
    /\ out.count = ChunksOf(len) /\ out.auth
    /\ out.trailing = 0
    /\ \A i \in 1 .. Len(out.runs) : RunOK(out.runs[i], len)
    /\ \A i \in 1 .. Len(out.runs) - 1 : out.runs[i+1][1] = out.runs[i][1] + out.runs[i][2]
    /\ Total(out.runs) = ChunksOf(len)
(* The output holds exactly the message (leaving the format of it aside).    *)
Contains(out, len) == out.auth /\ out.plain = len /\ out.match

(* ---- opening ------------------------------------------------------------ *)
(* h: [count, eph, tag, cut]; count is a number, -1 an arbitrary wrong one.  *)
(* The operation whose authentic header this is.                             *)
HeaderOf(h, shapes) == IF h.eph = h.tag /\ h.eph \in DOMAIN shapes /\ ~h.cut
                          /\ h.count = Len(shapes[h.eph])
                       THEN h.eph ELSE "none"

CellsOf(op, shape) ==       \* shape: sequence of "F" and "S"
    LET RECURSIVE Go(_)
        Go(i) == IF i > Len(shape) THEN <<>>
                 ELSE (IF shape[i] = "F" THEN << <<op, i-1, 1, "ok">>, <<op, i-1, 2, "ok">> >>
                       ELSE << <<op, i-1, 0, "ok">> >>) \o Go(i + 1)
    IN Go(1)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1 .. Len(a) : a[i] = b[i]

(* The file starts with everything that op produced. *)
Complete(file, op, shapes) == /\ HeaderOf(file.hdr, shapes) = op
                              /\ IsPrefixOf(CellsOf(op, shapes[op]), file.cells)

(* What opening may do with a file.
   auth:     the operation (to the given key) whose authentic header it has, or "none"
   len:      the length of that operation's message
   complete: the file contains all that the operation produced
   intact:   it contains nothing else
   outlen, prefix: what was written, and whether it is a prefix of the message *)
OnlyAuthentic(auth, len, outlen, prefix) ==
    IF auth = "none" THEN outlen = 0 ELSE prefix /\ outlen <= len
WholeOrError(auth, len, complete, outlen, prefix, res) ==
    res = "ok" => auth # "none" /\ complete /\ prefix /\ outlen = len
OpensIntact(intact, res) == intact => res = "ok"
=============================================================================
