----------------------------- MODULE DecoderMC ------------------------------
EXTENDS DecoderImpl
D(k, p, v) == [kind |-> k, pos |-> p, val |-> v]
MCBreaks == { <<>>, <<4>>, <<1, 6>> }
MCDefects == { D("none", 0, 0), D("cut", 5, 0), D("set", 6, 33), D("fail", 7, 0) }
LiveBreaks == { <<>>, <<1>>, <<4>>, <<3, 2>> }
LiveDefects == { D(k, p, 33) : k \in {"none", "cut", "set", "ins", "fail"}, p \in 0 .. 9 }
SimBreaks == { <<>>, <<72>>, <<76>>, <<1>>, <<5, 64, 2>> }
SimDefects == { D("none", 0, 0), D("none", 1, 0) } \cup
              { D(k, p, 33) : k \in {"cut", "set", "fail"}, p \in {3, 71, 72, 73, 74, 75, 76, 90, 145} }
(* Characters that are none of base64, though some would like them to be:    *)
(* white space, the URL alphabet, padding, controls, parts of a byte order   *)
(* mark, letters with the top bit set.                                       *)
Junk == {0, 1, 8, 9, 11, 12, 13, 26, 27, 32, 33, 34, 37, 38, 42, 44, 45, 46, 58, 59, 61, 64, 91, 92, 94, 95, 96, 123, 126, 127,
         128, 133, 160, 193, 195, 225, 239, 254, 255}
JunkBreaks == { <<>>, <<4>> }
JunkDefects == { D(k, p, v) : k \in {"set", "ins"}, p \in 0 .. 9, v \in Junk } \cup { D("ins", p, v) : p \in {15, 16, 17}, v \in Junk }
=============================================================================
