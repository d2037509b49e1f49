------------------------------- MODULE KeyModel ------------------------------
(* Two trees with wrapped keys, one tree with a pre-shared key, and damaged roots. *)
EXTENDS Naturals, Sequences
VARIABLES st, hist, last
Root(n, k) == [kind |-> "oaep", kn |-> n, p |-> n, intact |-> TRUE, wrap |-> <<[k |-> k, fits |-> TRUE]>>]
Child(n) == [kind |-> "oaep", kn |-> n, p |-> n, intact |-> TRUE, wrap |-> <<>>]
BadNode(n, k) == [Root(n, k) EXCEPT !.intact = FALSE]
BadWrap(n, k) == [Root(n, k) EXCEPT !.intact = FALSE, !.wrap = <<[k |-> k, fits |-> FALSE]>>]
OtherNum(n, k, x) == [BadWrap(n, k) EXCEPT !.kn = x]
Psk(n) == [kind |-> "aead", kn |-> n, p |-> n, intact |-> TRUE, wrap |-> <<>>]
Ms == {Root(1, 1), Child(1), BadNode(1, 1), BadWrap(1, 1), BadWrap(1, 2), OtherNum(1, 1, 2), Root(2, 2), Child(2), Psk(3), [Psk(3) EXCEPT !.intact = FALSE]}
INSTANCE KeyStore WITH Names <- {"a", "b"}, Keys <- {1, 2}, Nums <- {1, 2, 3}, Manifests <- Ms, MaxOps <- 5
=============================================================================
