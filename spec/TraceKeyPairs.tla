---------------------------- MODULE TraceKeyPairs ----------------------------
(* Generated key pairs, of all processes together, against KeyPairs.         *)
EXTENDS TraceLib, KeyPairs
VARIABLES used, nums, salts, seeds
vars == <<l, used, nums, salts, seeds>>
TInit == l = 1 /\ used = {} /\ nums = {} /\ salts = {} /\ seeds = {}
Same == UNCHANGED <<used, nums, salts, seeds>>
Gen == /\ Is("pair") /\ Returned(ev.res)
       /\ IF ev.res # "ok"
          THEN /\ Same
               /\ On("C07") => ev.source # "good"   \* the source of randomness has failed
          ELSE /\ On("C07") => GoodPair(ev) /\ NewValues(ev, used)
               /\ used' = AddValues(ev, used)
               \* A statistic only of those from the real source, few enough.
               /\ IF ev.stat
                  THEN nums' = nums \cup {ev.num} /\ salts' = salts \cup {ev.salt} /\ seeds' = seeds \cup {ev.seed}
                  ELSE UNCHANGED <<nums, salts, seeds>>
(* The process gave up because there is no randomness. *)
Crash == Is("nopair") /\ Same /\ (On("C07") => ev.source # "good")
Stat == /\ Is("stat") /\ Same
        /\ On("C07") /\ Cardinality(nums) >= 256 =>
             /\ Varied(nums, 8, 80) /\ Varied(salts, 16, 80) /\ Varied(seeds, 32, 80)
(* Many in one process: the number of different values.                      *)
Many == /\ Is("many") /\ Same /\ Returned(ev.res)
        /\ On("C07") => /\ ev.res = "ok"
                        /\ ev.nums = ev.n /\ ev.salts = ev.n /\ ev.seeds = ev.n /\ ev.pubs = ev.n
                        /\ Balanced(ev)
(* The same again from the same few random bytes: then these are all that    *)
(* the key pair is made of, and can't be enough for its random parts.        *)
Scarce == /\ Is("scarce") /\ Same
          /\ On("C07") => ~(ev.left < Total /\ ev.first = "ok" /\ ev.second = "ok" /\ ev.same)
TNext == Scarce \/ Many \/ Gen \/ Crash \/ Stat
TSpec == TInit /\ [][TNext]_vars
=============================================================================
