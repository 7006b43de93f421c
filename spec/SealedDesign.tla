---------------------------- MODULE SealedDesign ----------------------------
(* An adversary edits the encrypted file of operation A, with the files of   *)
(* two more operations at hand (B to the same key, C to another key), and    *)
(* the recipient opens it chunk by chunk.  Every file the adversary can make *)
(* within MaxEdits edits is checked against the contract and emitted.        *)
EXTENDS Sealed, TLC, Json

CONSTANTS ShapesA, ShapeB, ShapeC, MaxEdits, EmitAll

VARIABLES shapeA, file, edits
vars == <<shapeA, file, edits>>

Shape(op) == CASE op = "A" -> shapeA [] op = "B" -> ShapeB [] op = "C" -> ShapeC
Shapes == [op \in {"A", "B", "C"} |-> Shape(op)]
Hdr(op) == [count |-> Len(Shape(op)), eph |-> op, tag |-> op, cut |-> FALSE]
Cells(op) == CellsOf(op, Shape(op))
Range(s) == {s[i] : i \in 1 .. Len(s)}

Init == /\ shapeA \in ShapesA
        /\ file = [hdr |-> [count |-> Len(shapeA), eph |-> "A", tag |-> "A", cut |-> FALSE],
                    cells |-> CellsOf("A", shapeA)]
        /\ edits = 0

N == Len(file.cells)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(s, i, c) == SubSeq(s, 1, i) \o <<c>> \o SubSeq(s, i + 1, Len(s))

Edit(cells) == file' = [file EXCEPT !.cells = cells]
Delete == \E i \in 1 .. N : Edit(Without(file.cells, i))
Truncate == \E i \in 0 .. N - 1 : Edit(SubSeq(file.cells, 1, i))
Swap == \E i \in 1 .. N, j \in 1 .. N : i < j /\
           Edit([file.cells EXCEPT ![i] = file.cells[j], ![j] = file.cells[i]])
Splice == \E op \in {"A", "B", "C"} : \E c \in Range(Cells(op)) : \E i \in 0 .. N : Edit(Insert(file.cells, i, c))
Replace == \E op \in {"A", "B", "C"} : \E c \in Range(Cells(op)) : \E i \in 1 .. N : Edit([file.cells EXCEPT ![i] = c])
Alter == \E i \in 1 .. N, m \in {"flip", "cut"} :
            file.cells[i][4] = "ok" /\ Edit([file.cells EXCEPT ![i] = [@ EXCEPT ![4] = m]])
DropChunk == \E i \in 1 .. N - 1 : file.cells[i][3] = 1 /\ file.cells[i+1][3] = 2
                /\ Edit(Without(Without(file.cells, i), i))
SwapChunks == \E i \in 1 .. N - 3, j \in 3 .. N - 1 : i + 1 < j
                /\ file.cells[i][3] = 1 /\ file.cells[j][3] = 1
                /\ Edit([file.cells EXCEPT ![i] = file.cells[j], ![i+1] = file.cells[j+1],
                                           ![j] = file.cells[i], ![j+1] = file.cells[i+1]])
Header == \/ \E f \in {"eph", "tag"}, v \in {"A", "B", "C", "J"} :
                file' = [file EXCEPT !.hdr[f] = v]
          \/ \E n \in -1 .. 3 \cup {Len(shapeA) - 1, Len(shapeA) + 1} : file' = [file EXCEPT !.hdr.count = n]
WholeHeader == \E op \in {"B", "C"} : file' = [file EXCEPT !.hdr = Hdr(op)]
CutHeader == file' = [hdr |-> [file.hdr EXCEPT !.cut = TRUE], cells |-> <<>>]
OtherBody == \E op \in {"B", "C"} : Edit(Cells(op))

Next == /\ edits < MaxEdits
        /\ edits' = edits + 1
        /\ UNCHANGED shapeA
        /\ \/ Delete \/ Truncate \/ Swap \/ Splice \/ Replace \/ Alter \/ DropChunk \/ SwapChunks
           \/ Header \/ WholeHeader \/ CutHeader \/ OtherBody
        /\ Len(file'.cells) <= 12
Spec == Init /\ [][Next]_vars

(* ---- the recipient (key of A and B), as built ---------------------------- *)
Key == {"A", "B"}
Auth == LET h == HeaderOf(file.hdr, Shapes) IN IF h \in Key THEN h ELSE "none"
(* A read takes two cells, if they are there.  It yields chunk i of op only  *)
(* if it is exactly that.                                                    *)
Opens(op, i, got) == LET k == Shape(op)[i + 1]
                     IN got = (IF k = "F" THEN << <<op, i, 1, "ok">>, <<op, i, 2, "ok">> >> ELSE << <<op, i, 0, "ok">> >>)
RECURSIVE Run(_, _, _, _)
Run(op, i, cells, written) ==
    IF i = Len(Shape(op)) THEN [res |-> "ok", written |-> written]
    ELSE LET k == IF Len(cells) < 2 THEN Len(cells) ELSE 2
             got == SubSeq(cells, 1, k)
         IN IF k = 0 \/ ~Opens(op, i, got) THEN [res |-> "err", written |-> written]
            ELSE Run(op, i + 1, SubSeq(cells, k + 1, Len(cells)), written + 1)
Outcome == IF Auth = "none" THEN [res |-> "err", written |-> 0] ELSE Run(Auth, 0, file.cells, 0)

(* The contract, with chunks as the unit of length.  The design opens only   *)
(* complete files and releases a prefix of one message.                      *)
DesignOK ==
    LET o == Outcome
        len == IF Auth = "none" THEN 0 ELSE Len(Shape(Auth))
        complete == Auth # "none" /\ Complete(file, Auth, Shapes)
    IN /\ OnlyAuthentic(Auth, len, o.written, TRUE)
       /\ WholeOrError(Auth, len, complete, o.written, TRUE, o.res)
       /\ OpensIntact(Auth # "none" /\ file.cells = Cells(Auth), o.res)

Case == [fam |-> "tamper", shapeA |-> shapeA, shapeB |-> ShapeB, shapeC |-> ShapeC, file |-> file]
Emit == (EmitAll /\ (MaxEdits < 5 \/ edits >= 3)) => PrintT("CASE " \o ToJson(Case))
View == <<shapeA, file>>
=============================================================================
