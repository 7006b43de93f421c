------------------------------ MODULE KeyPairs ------------------------------
(* The contract of a single key generation, and of all of them together.     *)
(* A key pair as it was found in the two files is a record                   *)
(*   num, salt, seed   of the secret key, as sequences of bytes              *)
(*   pnum              the key number of the public key                      *)
(*   ...               observations on the pair                              *)
EXTENDS Integers, Sequences, FiniteSets
Lengths == [num |-> 8, salt |-> 16, seed |-> 32]
Fields == DOMAIN Lengths
Total == Lengths.num + Lengths.salt + Lengths.seed
WellFormed(r) == \A f \in Fields : Len(r[f]) = Lengths[f]
(* The two keys belong together, also for those who use them. *)
Matching(r) == /\ r.pnum = r.num
               /\ r.pubmatch       \* the public key is the one of the seed
               /\ r.selfpub        \* and is also in the secret key
               /\ r.checksum       \* the checksum is that of the plain key
               /\ r.verifies       \* signatures made with one verify with the other
               /\ r.opens          \* what is sealed to one opens with the other
               /\ r.reloads        \* both can be loaded again, and are the same
(* Zero bytes are not more frequent than chance could explain (2^-48).       *)
Zeros(s) == Cardinality({i \in 1 .. Len(s) : s[i] = 0})
NotBlank(r) == \A f \in Fields : Zeros(r[f]) <= 5 + Len(r[f]) \div 8
(* No field is a copy of (a part of) another one. *)
Contains(s, t) == \E i \in 0 .. Len(s) - Len(t) : \A j \in 1 .. Len(t) : s[i + j] = t[j]
Independent(r) == /\ ~Contains(r.salt, r.num) /\ ~Contains(r.seed, r.num) /\ ~Contains(r.pub, r.num)
                  /\ ~Contains(r.seed, SubSeq(r.salt, 1, 8)) /\ ~Contains(r.seed, SubSeq(r.salt, 9, 16))
                  /\ ~Contains(r.pub, SubSeq(r.salt, 1, 8)) /\ ~Contains(r.pub, SubSeq(r.salt, 9, 16))
GoodPair(r) == WellFormed(r) /\ Matching(r) /\ NotBlank(r) /\ Independent(r)
(* Nothing was there before: used is the set of values of all fields so far. *)
NewValues(r, used) == \A f \in Fields : r[f] \notin used
AddValues(r, used) == used \cup {r[f] : f \in Fields}
(* Every byte takes many values: of 256 random ones 162 are different on     *)
(* average, and fewer than 80 never (15 standard deviations).                *)
Varied(S, n, least) == \A i \in 1 .. n : Cardinality({s[i] : s \in S}) >= least
(* Of many: every bit is a one about half the time (10 standard deviations), *)
(* every byte takes all values, and no two bytes are related (the most       *)
(* frequent difference of two is not much more frequent than any other).     *)
Balanced(r) == /\ r.dev * r.dev <= 100 * r.n
               /\ r.n >= 10000 => r.values >= 250 /\ 256 * r.pair <= 3 * r.n
=============================================================================
