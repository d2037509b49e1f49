------------------------------- MODULE CliGen --------------------------------
(* The combinations of writer options that differ in kind: which options are given. *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
B == BOOLEAN
Schemas == {[schema |-> "Hashed", mp |-> FALSE, dp |-> FALSE, same |-> FALSE, ml |-> a, dl |-> b] : a \in B, b \in B}
           \cup {[schema |-> s, mp |-> a, dp |-> b, same |-> c, ml |-> FALSE, dl |-> FALSE] : s \in {"Hashed", "Prefix", "Segmented"}, a \in B, b \in B, c \in B}
Keys == {[key |-> 0, ccm |-> FALSE, kn |-> FALSE, salt |-> FALSE]}
        \cup {[key |-> k, ccm |-> c, kn |-> n, salt |-> s] : k \in {16, 32}, c \in B, n \in B, s \in B}
Kdfs == {[kdf |-> FALSE, info |-> "none"]} \cup {[kdf |-> TRUE, info |-> i] : i \in {"none", "ascii", "hex", "uuid"}}
Encs == {[k |-> k, wrap |-> w, d |-> d] : k \in Keys, w \in {"none", "plain", "password"}, d \in Kdfs}
Signs == {"none", "plain", "password"}
\* both prefixes the same only if both are given; key derivation only with encryption
Fine(s, e) == /\ s.same => (s.mp /\ s.dp)
              /\ (s.schema = "Hashed" /\ (s.mp \/ s.dp)) => e.k.key = 0     \* refused: not with every encryption
              /\ e.d.kdf => (e.k.key # 0 \/ e.wrap # "none")
All == {x \in {[s |-> s, e |-> e, sign |-> g, link |-> l] : s \in {y \in Schemas : y.same => (y.mp /\ y.dp)}, e \in Encs, g \in Signs, l \in B} : Fine(x.s, x.e)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(All))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
