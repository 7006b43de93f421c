------------------------------- MODULE CurveMC -------------------------------
(* The facts the witnesses rely on, for all elements of small fields: primes *)
(* that are 5 modulo 8, like 2^255 - 19, and all d that are not squares.     *)
EXTENDS Integers, FiniteSets
CONSTANT Primes
VARIABLES p, d, y
vars == <<p, d, y>>
F == 0 .. p - 1
Square(a, q) == \E r \in 0 .. q - 1 : (r * r) % q = a % q
Inv(a) == CHOOSE r \in F : (a * r) % p = 1
Init == /\ p \in Primes
        /\ d \in {x \in 1 .. p - 1 : ~Square(x, p)}
        /\ y \in 0 .. p - 1
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Y2 == (y * y) % p
Den == (d * Y2 + 1) % p
Num == (Y2 - 1) % p
Points == {<<x, v>> \in F \X F : (-x * x + v * v) % p = (1 + d * ((x * x) % p) * ((v * v) % p)) % p}
IsPoint == \E x \in F : <<x, y>> \in Points
TwoIsNotASquare == ~Square(2, p)
DenIsNotZero == Den # 0
(* There is a witness of exactly one kind. *)
Yes == \E x \in F : (x * x * Den) % p = Num
No == \E x \in F : (x * x) % p # 0 /\ (x * x * Den) % p = (2 * Num) % p
Witnessed == (Yes <=> IsPoint) /\ (No <=> ~IsPoint)
(* u is the coordinate of a point of the Montgomery curve, and determines y. *)
U == ((1 + y) * Inv((1 - y) % p)) % p
A == (2 * (d - 1) * Inv((-(1 + d)) % p)) % p
B == (-4 * Inv((1 + d) % p)) % p
OnMontgomery == y # 1 /\ (1 + d) % p # 0 /\ IsPoint => \E v \in F : (B * v * v) % p = (U * U * U + A * U * U + U) % p
Determines == y # 1 => \A z \in F \ {1} : (U * (1 - z)) % p = (1 + z) % p => z = y
=============================================================================
