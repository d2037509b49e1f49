------------------------------- MODULE StoreGen -------------------------------
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT D
\* histories of puts of 5 packets (1..5) and damage to the files of packets 1, 2, 4 (6, 7, 8) after a put of them
Sensible(s) == \A i \in DOMAIN s : s[i] > 5 => \E j \in 1..(i-1) : s[j] = <<1, 2, 4>>[s[i] - 5]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq([puts : {s \in UNION {[1..k -> 1..8] : k \in 0..D} : Sensible(s)}]))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
