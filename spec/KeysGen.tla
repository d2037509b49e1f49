------------------------------- MODULE KeysGen -------------------------------
(* Histories of key objects, for KeysCheck.                                     *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT D
Ops == {"pubA", "saveA", "savePub", "load", "loadWrong", "loadNone", "sign", "pss", "signLast", "seal", "genC"}
Some == {"load", "loadWrong", "signLast", "seal", "pss"}
Useful == [1..D -> Ops] \cup {<<"saveA">> \o s : s \in [1..D -> Some]} \cup {<<"pubA">> \o s : s \in [1..D -> Some]}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[ops |-> s] : s \in Useful}))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
