-------------------------------- MODULE WalkGen --------------------------------
(* One object at fault, or two, in the tree of Walk.tla; a keystore, and what it learns before the second walk. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT Two
Plain(b) == [sig |-> b, bad |-> FALSE, enc |-> <<>>, other |-> FALSE]
Looks(x) == {[sig |-> s, bad |-> TRUE, enc |-> <<>>, other |-> FALSE] : s \in {1, 2}} \cup {[sig |-> 3, bad |-> FALSE, enc |-> <<>>, other |-> FALSE]}
            \cup {[sig |-> 0, bad |-> FALSE, enc |-> <<>>, other |-> TRUE]}
            \cup (IF x \in {1, 3} THEN {[sig |-> 0, bad |-> FALSE, enc |-> e, other |-> FALSE] : e \in {<<7, 1>>, <<7, 2>>, <<7, 4, 0>>, <<7, 4, 1>>, <<7, 5, 2>>}} ELSE {})
Base == {0, 1, 2}
One == {[base |-> b, at |-> <<x>>, look |-> <<l>>, on |-> o] : b \in Base, x \in 1..6, l \in UNION {Looks(x) : x \in 1..6}, o \in BOOLEAN}
OneOk == {c \in One : c.look[1] \in Looks(c.at[1])}
Pair == {[base |-> b, at |-> <<p[1], p[2]>>, look |-> <<l, m>>, on |-> TRUE] : b \in {0, 2}, p \in {q \in (1..6) \X (1..6) : q[1] < q[2]},
                                                                  l \in Looks(1), m \in Looks(1)}
PairOk == {c \in Pair : c.look[1] \in Looks(c.at[1]) /\ c.look[2] \in Looks(c.at[2])}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(OneOk \cup (IF Two THEN PairOk ELSE {})))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
