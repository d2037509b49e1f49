------------------------------- MODULE KeyGen --------------------------------
(* Histories of a keystore and of decryptions with it, for KeyCheck.              *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT D
Alphabet == << "aes1", "aes2", "aesX", "badX", "bad1", "privW", "pubW", "privO", "psk1", "psk1damaged", "psk2",
               "rootX", "childX", "rootXnode", "rootXwrap", "rootY", "childY" >>
Ops == {Alphabet[i] : i \in DOMAIN Alphabet}
\* a history that never decrypts is of no use here
Decs == {"psk1", "psk1damaged", "psk2", "rootX", "childX", "rootXnode", "rootXwrap", "rootY", "childY"}
\* longer ones about one tree
One == {"aes1", "bad1", "psk1", "psk1damaged", "psk2"}
Tree == {"privW", "aesX", "badX", "rootX", "childX", "rootXnode"}
Useful == {s \in [1..D -> Ops] \cup [1..(D + 1) -> One] \cup [1..(D + 1) -> Tree] : s[Len(s)] \in Decs}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[ops |-> s] : s \in Useful}))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
