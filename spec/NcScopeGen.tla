------------------------------ MODULE NcScopeGen ------------------------------
(* The trees of NcScope.tla, with real schemas, written for the replay.        *)
EXTENDS Wire, Json, IOUtils
Nm(x) == <<[t |-> 1, v |-> <<x>>]>>
Seg(x) == [k |-> "seg", name |-> <<Nm(x)>>, sfx |-> <<<<5>>>>, loc |-> <<>>, flags |-> <<>>]
Pre(x) == [k |-> "prefix", name |-> <<Nm(x)>>, sfx |-> <<>>, loc |-> <<>>, flags |-> <<>>]
Hsh == [k |-> "hash", name |-> <<>>, sfx |-> <<>>, loc |-> <<<<[name |-> <<Nm(76)>>, keyid |-> <<>>, digest |-> <<>>]>>>>, flags |-> <<>>]
DefSets == {<<>>, <<[id |-> 1, s |-> Seg(65)]>>, <<[id |-> 1, s |-> Pre(66)]>>, <<[id |-> 2, s |-> Hsh]>>,
            <<[id |-> 2, s |-> Pre(68)], [id |-> 1, s |-> Seg(69)]>>}
Cases == [d1 : DefSets, d3 : DefSets, d7 : DefSets, d4 : DefSets]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
