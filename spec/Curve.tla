-------------------------------- MODULE Curve --------------------------------
(* Conversion of Ed25519 keys to Curve25519 keys, by arithmetic on numbers   *)
(* as sequences of bytes, least significant first.                           *)
(*                                                                           *)
(* p = 2^255 - 19.  Products are not reduced here: a witness gives quotient  *)
(* and remainder, and the equation is checked.                               *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- numbers ----------------------------------------------------------------- *)
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
(* Sequence of n coefficients of any size -> n + 4 bytes. *)
Normal(s, n) ==
    LET C[i \in 0 .. n + 4] == IF i = 0 THEN 0 ELSE (At(s, i) + C[i - 1]) \div 256
    IN [i \in 1 .. n + 4 |-> (At(s, i) + C[i - 1]) % 256]
Max(a, b) == IF a > b THEN a ELSE b
Same(a, b) == LET n == Max(Len(a), Len(b)) IN Normal(a, n) = Normal(b, n)
Add(a, b) == LET n == Max(Len(a), Len(b)) IN [i \in 1 .. n |-> At(a, i) + At(b, i)]
Small(k) == <<k>>
RECURSIVE SumTo(_, _, _, _)
SumTo(a, b, k, i) == IF i = 0 THEN 0 ELSE At(a, i) * At(b, k + 1 - i) + SumTo(a, b, k, i - 1)
Times(a, b) == [k \in 1 .. Len(a) + Len(b) - 1 |-> SumTo(a, b, k, IF k < Len(a) THEN k ELSE Len(a))]
Scale(a, c) == [i \in 1 .. Len(a) |-> c * a[i]]
(* q * 2^255 *)
Shifted(q) == [i \in 1 .. Len(q) + 31 |-> IF i <= 31 THEN 0 ELSE 128 * q[i - 31]]
P == [i \in 1 .. 32 |-> IF i = 1 THEN 237 ELSE IF i = 32 THEN 127 ELSE 255]
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF At(a, i) # At(b, i) THEN At(a, i) < At(b, i) ELSE LessAt(a, b, i - 1)
Less(a, b) == LessAt(a, b, Max(Len(a), Len(b)))
IsBytes(s, n) == Len(s) = n /\ \A i \in 1 .. n : s[i] \in 0 .. 255
Reduced(s) == IsBytes(s, 32) /\ Less(s, P)
Zero32(s) == \A i \in 1 .. Len(s) : s[i] = 0
(* n = q * p + r, that is n + 19 q = q * 2^255 + r *)
IsMod(n, w) == Reduced(w.r) /\ Same(Add(n, Scale(w.q, 19)), Add(Shifted(w.q), w.r))
(* p - a, for a reduced a *)
D == <<163, 120, 89, 19, 202, 77, 235, 117, 171, 216, 65, 65, 77, 10, 112, 0, 152, 232, 121, 119, 121, 64, 199, 140, 115, 254, 111, 43, 238, 108, 3, 82>>

(* ---- points -------------------------------------------------------------------- *)
(* y of an encoded point: without the sign bit. *)
YOf(b) == [b EXCEPT ![32] = @ % 128]
(* w witnesses whether a point has this y:  (y^2 - 1) / (d y^2 + 1) is a     *)
(* square x^2, or twice it is (2 is not a square).                           *)
(*   y2 = y y,  dy = d y2,  x2 = x x,  f (y2 - 1) = x2 (dy + 1),  f = 1 or 2 *)
Witness(y, w) ==
    /\ IsMod(Times(y, y), w.y2) /\ IsMod(Times(D, w.y2.r), w.dy) /\ Reduced(w.x) /\ IsMod(Times(w.x, w.x), w.x2)
    /\ IsMod(Times(w.x2.r, Add(w.dy.r, Small(1))), w.rhs)
    /\ LET f == IF w.point THEN 1 ELSE 2 IN IsMod(Scale(Add(w.y2.r, Add(P, Small(-1))), f), w.lhs)
    /\ w.lhs.r = w.rhs.r
    /\ w.point \/ ~Zero32(w.x2.r)
(* u (1 - y) = 1 + y, where 2 p + 1 stands for 1: y may exceed p *)
Converted(y, u, w) ==
    /\ Reduced(u)
    /\ IsMod(Times(u, Add(Add(Add(P, P), Small(1)), Scale(y, -1))), w.u1) /\ IsMod(Add(y, Small(1)), w.u2) /\ w.u1.r = w.u2.r

(* ---- secret keys ----------------------------------------------------------------- *)
Clamped(h) == [i \in 1 .. 32 |-> CASE i = 1 -> (h[1] \div 8) * 8 [] i = 32 -> (h[32] % 64) + 64 [] OTHER -> h[i]]
=============================================================================
