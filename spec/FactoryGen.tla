------------------------------ MODULE FactoryGen ------------------------------
(* The calls of a factory that differ in kind: source, what is given, what the options allow. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
B == BOOLEAN
Opts == {[ns |-> a, gs |-> b, gl |-> c] : a \in B, b \in B, c \in B}
Given == [{"ncs", "nss", "gss", "gls", "nc", "ssid"} -> B]
Few == {g \in Given : ~g["gss"] /\ ~g["gls"] /\ ~g["nc"] /\ ~g["ssid"]} \cup {g \in Given : \A x \in DOMAIN g : g[x]}
All == {[o |-> o, src |-> "pointers", g |-> g] : o \in Opts, g \in Given}
       \cup {[o |-> o, src |-> s, g |-> g] : o \in Opts, s \in {"group", "groups"}, g \in Few}
       \cup {[o |-> o, src |-> "node", g |-> g] : o \in Opts, g \in Few}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(All))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
