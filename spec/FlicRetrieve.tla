----------------------------- MODULE FlicRetrieve -----------------------------
(***************************************************************************)
(* The design of a retrieval from a store that may answer every fetch as it   *)
(* likes: with the right object, another object, or an error. An object is    *)
(* its own hash (collision-free). CheckHash is the defence; without it the     *)
(* properties fail (FlicRetrieveBroken.cfg).                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

CONSTANTS CheckHash, CheckSigner

\* two published files under the same name, the second by someone else, with parts in common
Data == {"a", "b", "c", "x"}
Bytes == [a |-> <<1, 2>>, b |-> <<3>>, c |-> <<4, 5>>, x |-> <<9>>]
Kids == [root |-> <<"top">>, top |-> <<"a", "m1", "m2">>, m1 |-> <<"b", "b">>, m2 |-> <<"c">>,
         evil |-> <<"etop">>, etop |-> <<"x", "m2">>]
Signer == [root |-> "S", evil |-> "E"]
Objects == Data \cup DOMAIN Kids
Name == [o \in Objects |-> IF o \in {"root", "evil"} THEN "N" ELSE ""]
File == <<1, 2, 3, 3, 4, 5>>
Ends == {0, 2, 3, 4, 6}

VARIABLES start, todo, out, status
vars == <<start, todo, out, status>>

Init == /\ start \in {"hash", "name"} /\ todo = <<"?">> /\ out = <<>> /\ status = "run"

Fail == status' = "error" /\ UNCHANGED <<start, todo, out>>
Visit(o) == IF o \in Data THEN /\ out' = out \o Bytes[o] /\ todo' = Tail(todo)
                               /\ status' = IF Len(todo) = 1 THEN "done" ELSE "run"
            ELSE /\ todo' = Kids[o] \o Tail(todo) /\ UNCHANGED <<out, status>>
\* the first fetch: by the root's hash, or by its name (then the packet must have that name and signature)
FetchRoot(reply) ==
    IF start = "hash"
    THEN IF CheckHash /\ reply # "root" THEN Fail ELSE Visit(reply) /\ UNCHANGED start
    ELSE IF Name[reply] # "N" \/ (CheckSigner /\ Signer[reply] # "S") THEN Fail
         ELSE Visit(reply) /\ UNCHANGED start
Fetch(reply) == IF CheckHash /\ reply # Head(todo) THEN Fail ELSE Visit(reply) /\ UNCHANGED start
Next == /\ status = "run"
        /\ \/ Fail                                    \* deleted, unreadable, or the store is down
           \/ \E reply \in Objects : IF Head(todo) = "?" THEN FetchRoot(reply) ELSE Fetch(reply)
Spec == Init /\ [][Next]_vars

Bound == Len(todo) <= 6 /\ Len(out) <= 8
Prefix == IsPrefix(out, File)
Whole == Len(out) \in Ends
ExactOrError == status = "done" => out = File
=============================================================================
