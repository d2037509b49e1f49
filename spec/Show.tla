---------------------------------- MODULE Show ---------------------------------
(* What packet_reader does with a file (P28): it parses the packet, shows it,      *)
(* validates it, and shows what an encrypted manifest has in it if it has the key. *)
(* c: [file: "packet" | "other", val: "none" | "valid" | "invalid" | "unknown",      *)
(*     man: "no" | "plain" | "sealed", key: "none" | "right" | "wrong"]              *)
(* CheckFirst: what is in a sealed manifest is only shown of packets that are not    *)
(* found to be invalid (FALSE: a control that TLC has to refute).                    *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS CheckFirst
VARIABLES c, stage, told
vars == <<c, stage, told>>

Cases == [file: {"packet", "other"}, val: {"none", "valid", "invalid", "unknown"},
          man: {"no", "plain", "sealed"}, key: {"none", "right", "wrong"}]

\* what has to come of a case: whether it ends well, and what has been told
Final(d) ==
    IF d.file = "other" THEN [ok |-> FALSE, told |-> {}]
    ELSE IF d.val = "invalid" THEN [ok |-> FALSE, told |-> {"packet"}]
    ELSE [ok |-> TRUE,
          told |-> {"packet"} \cup (IF d.val = "valid" THEN {"valid"} ELSE {})
                   \cup (IF d.man = "sealed" /\ d.key = "right" THEN {"inside"} ELSE {})]

Init == c \in Cases /\ stage = "start" /\ told = {}
Go(from, to, what) == stage = from /\ stage' = to /\ told' = told \cup what /\ UNCHANGED c
Load == Go("start", IF c.file = "packet" THEN "loaded" ELSE "failed", {})
Show == Go("loaded", IF CheckFirst THEN "shown" ELSE "checked", {"packet"})
Check == Go("shown", IF c.val = "invalid" THEN "failed" ELSE "checked", IF c.val = "valid" THEN {"valid"} ELSE {})
Open == Go("checked", IF CheckFirst THEN "done" ELSE "late", IF c.man = "sealed" /\ c.key = "right" THEN {"inside"} ELSE {})
CheckLate == Go("late", IF c.val = "invalid" THEN "failed" ELSE "done", IF c.val = "valid" THEN {"valid"} ELSE {})
Next == Load \/ Show \/ Check \/ Open \/ CheckLate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == stage \in {"done", "failed"}
AsSaid == Ended => Final(c) = [ok |-> stage = "done", told |-> told]
Careful == "inside" \in told => c.key = "right" /\ c.val # "invalid"
Honest == "valid" \in told => c.val = "valid"
Ends == <>Ended
=============================================================================
