---------------------------- MODULE ValidationGen ----------------------------
(* Every sequence of D operations of signers, forgers and key owners (up to the   *)
(* naming of the keys and messages in the first operation).                       *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT D
First == {[op |-> "sign", k |-> 1, m |-> 1], [op |-> "sum", m |-> 1], [op |-> "plain", m |-> 1], [op |-> "add", k |-> 1]}
IsPkt(o) == o.op \in {"sign", "sum", "plain", "forge"}
Sigs(s) == {i \in DOMAIN s : s[i].op \in {"sign", "sum", "forge"}}
More(s) == {[op |-> "sign", k |-> k, m |-> m] : k \in {1, 2}, m \in {1, 2}}
      \cup {[op |-> "sum", m |-> 2]} \cup {[op |-> "add", k |-> k] : k \in {1, 2}}
      \cup {[op |-> "forge", i |-> i, a |-> a, m |-> m] : i \in Sigs(s), a \in {0, 1, 2}, m \in {1, 2}}
RECURSIVE Seqs(_)
Seqs(k) == IF k = 1 THEN {<<o>> : o \in First} ELSE UNION {{Append(s, o) : o \in More(s)} : s \in Seqs(k - 1)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq([ops : Seqs(D)]))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
