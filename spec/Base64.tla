------------------------------- MODULE Base64 -------------------------------
(* Standard base64 (RFC 4648, padded) over sequences of byte values, and the *)
(* line layout used by psignify's encoder.  Characters are byte values too.  *)
EXTENDS Integers, Sequences

LF == 10
CR == 13
PAD == 61

CharOf(v) == IF v < 26 THEN v + 65
             ELSE IF v < 52 THEN v + 71
             ELSE IF v < 62 THEN v - 4
             ELSE IF v = 62 THEN 43 ELSE 47

(* The value of a base64 character, -1 if it is none. *)
ValOf(c) == IF c >= 65 /\ c <= 90 THEN c - 65
            ELSE IF c >= 97 /\ c <= 122 THEN c - 71
            ELSE IF c >= 48 /\ c <= 57 THEN c + 4
            ELSE IF c = 43 THEN 62
            ELSE IF c = 47 THEN 63 ELSE -1

Min(a, b) == IF a < b THEN a ELSE b

(* k-th character (1..4) of the group of the bytes b1, b2, b3. *)
GroupChar(b1, b2, b3, k) ==
    CharOf(CASE k = 1 -> b1 \div 4
             [] k = 2 -> (b1 % 4) * 16 + b2 \div 16
             [] k = 3 -> (b2 % 16) * 4 + b3 \div 64
             [] k = 4 -> b3 % 64)

(* Encoding of a whole byte sequence, with padding, without line breaks. *)
Encode(bs) ==
    LET n == Len(bs)
        g == (n + 2) \div 3
        B(i) == IF i <= n THEN bs[i] ELSE 0
        Ch(p) == LET gi == (p - 1) \div 4
                     k == ((p - 1) % 4) + 1
                     used == n - 3 * gi          \* bytes in this group (if < 3)
                 IN IF k - 1 > used THEN PAD
                    ELSE GroupChar(B(3*gi+1), B(3*gi+2), B(3*gi+3), k)
    IN [p \in 1 .. 4 * g |-> Ch(p)]

(* Decoding of text without line breaks: [ok, bytes].  If the text is not    *)
(* well formed, bytes is the decoding of its longest well formed prefix of   *)
(* complete groups.                                                          *)
Decode(t) ==
    LET n == Len(t)
        full == n \div 4
        IsCh(i) == ValOf(t[i]) >= 0
        Quad(g) == \A k \in 1 .. 4 : IsCh(4*g + k)
        LastPad(g) == /\ IsCh(4*g+1) /\ IsCh(4*g+2)
                      /\ t[4*g+4] = PAD
                      /\ (t[4*g+3] = PAD \/ IsCh(4*g+3))
        bad == {g \in 0 .. full - 1 : ~ Quad(g)}
        first == IF bad = {} THEN full ELSE CHOOSE g \in bad : \A h \in bad : g <= h
        ends == first < full /\ LastPad(first)
        padded == ends /\ n = 4 * full /\ first = full - 1
        extra == IF ~ends THEN 0 ELSE IF t[4*first+3] = PAD THEN 1 ELSE 2
        V(i) == ValOf(t[i])
        Byte(j) == LET g == (j - 1) \div 3
                       k == ((j - 1) % 3) + 1
                   IN CASE k = 1 -> V(4*g+1) * 4 + V(4*g+2) \div 16
                        [] k = 2 -> (V(4*g+2) % 16) * 16 + V(4*g+3) \div 4
                        [] k = 3 -> (V(4*g+3) % 4) * 64 + V(4*g+4)
    IN [ok |-> (first = full /\ n % 4 = 0) \/ padded,
        bytes |-> [j \in 1 .. 3 * first + extra |-> Byte(j)]]

NoBreaks(t) == SelectSeq(t, LAMBDA c : c # LF)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1 .. Len(a) : a[i] = b[i]

(* The encoder's line layout: a line break after every lineChars characters. *)
BreakLines(t, lineChars) ==
    LET n == Len(t)
        w == lineChars + 1
        total == n + n \div lineChars
    IN [p \in 1 .. total |->
          IF p % w = 0 THEN LF ELSE t[p - p \div w]]
=============================================================================
