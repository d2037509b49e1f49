----------------------------- MODULE Sha256Test -----------------------------
EXTENDS Sha256
ASSUME PrintT(Sha256(<<97,98,99>>))
ASSUME PrintT(Sha256([i \in 1..200 |-> i]))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
