-------------------------------- MODULE HgGen --------------------------------
(* Every sequence of D operations with every pair of limits.                   *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS D
Ops == [k : {"ad", "pd", "ai", "pi"}, size : {<<>>, <<5>>}]
PairOps == [k : {"pd", "ai", "pi"}, size : {<<>>, <<7>>}]
Lim == {-1, 0, 1, 2}
Single == [pair : {0}, maxd : Lim, maxi : Lim, ops : UNION {[1..k -> Ops] : k \in 0..D}]
Pairs == [pair : {1, 2}, maxd : Lim, maxi : Lim, ops : UNION {[1..k -> PairOps] : k \in 0..D}]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Single) \o SetToSeq(Pairs))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
