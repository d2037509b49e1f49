-------------------------------- MODULE Crash --------------------------------
(***************************************************************************)
(* A publication into a directory, file operation by file operation, that    *)
(* may be stopped at any of them: every object is a file (opened, then        *)
(* written), and a named object has a link file beside it. A file that was    *)
(* opened and not written to its end is torn.                                 *)
(* Objs: the objects in the order of their puts, each the set of the objects   *)
(* it points to; Named: those with a name. LinkFirst: the control, in which    *)
(* the link is written before the object.                                      *)
(* After a stop the publication may be started again over what is there, which *)
(* tears files that were whole: only a publication that is not stopped then    *)
(* makes everything whole.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS LinkFirst, Runs
Objs == <<{}, {}, {1, 2}, {}, {3, 4}, {5}>>
Named == {2, 3, 6}
N == Len(Objs)
Files(i) == IF i \notin Named THEN <<[k |-> "obj", i |-> i]>>
            ELSE IF LinkFirst THEN <<[k |-> "link", i |-> i], [k |-> "obj", i |-> i]>>
            ELSE <<[k |-> "obj", i |-> i], [k |-> "link", i |-> i]>>
RECURSIVE Plan(_)
Plan(i) == IF i > N THEN <<>> ELSE Files(i) \o Plan(i + 1)
All == Plan(1)

VARIABLES whole, torn, at, open, run, stopped
vars == <<whole, torn, at, open, run, stopped>>
Init == whole = {} /\ torn = {} /\ at = 1 /\ open = FALSE /\ run = 1 /\ stopped = FALSE
Open == /\ ~stopped /\ ~open /\ at <= Len(All)
        /\ open' = TRUE /\ torn' = torn \cup {All[at]} /\ whole' = whole \ {All[at]}
        /\ UNCHANGED <<at, run, stopped>>
Write == /\ ~stopped /\ open
         /\ open' = FALSE /\ whole' = whole \cup {All[at]} /\ torn' = torn \ {All[at]} /\ at' = at + 1
         /\ UNCHANGED <<run, stopped>>
Stop == ~stopped /\ at <= Len(All) /\ stopped' = TRUE /\ UNCHANGED <<whole, torn, at, open, run>>
Again == stopped /\ run < Runs /\ run' = run + 1 /\ at' = 1 /\ open' = FALSE /\ stopped' = FALSE /\ UNCHANGED <<whole, torn>>
Next == Open \/ Write \/ Stop \/ Again
Spec == Init /\ [][Next]_vars

O(i) == [k |-> "obj", i |-> i]
NoDangling == run = 1 => \A i \in 1..N : O(i) \in whole => \A j \in Objs[i] : O(j) \in whole
LinksLead == run = 1 => \A i \in Named : [k |-> "link", i |-> i] \in whole => O(i) \in whole
Recovered == at > Len(All) => torn = {} /\ whole = {All[x] : x \in DOMAIN All}
OneTorn == Cardinality(torn) <= run
=============================================================================
