-------------------------------- MODULE NameGen --------------------------------
(* Every sequence of D operations on names (each on any name made before).       *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT D
C(x) == [t |-> 1, v |-> <<x>>]
New == {[op |-> "uri", comps |-> <<C(97), C(98)>>], [op |-> "build", comps |-> <<>>], [op |-> "uri", comps |-> <<>>]}
On(k) == {[op |-> "append", i |-> i, c |-> C(98)] : i \in 1..k}
    \cup {[op |-> o, i |-> i, n |-> n] : o \in {"chunk", "manifest"}, i \in 1..k, n \in {<<0>>, <<1, 0>>}}
    \cup {[op |-> "parse", i |-> i] : i \in 1..k}
RECURSIVE Seqs(_)
Seqs(k) == IF k = 0 THEN {<<>>}
           ELSE UNION {{Append(s, o) : o \in (IF k = 1 THEN New ELSE On(k - 1) \cup (IF k = 2 THEN New ELSE {}))} : s \in Seqs(k - 1)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq([ops : Seqs(D)]))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
