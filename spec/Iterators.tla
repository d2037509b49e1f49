------------------------------ MODULE Iterators ------------------------------
(***************************************************************************)
(* Several iterations over one object, interleaved in any way, abandoned or  *)
(* run to the end: each gives the items of the object in order, whatever the *)
(* others do.                                                                *)
(*   event: [it, e: "start" | "item" | "end", v: item]                       *)
(* With OwnPosition = FALSE the object itself holds the one position: the    *)
(* design that gives a nested loop over an object only one outer turn.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

\* what the events say, against the items: the position of every iteration, or 0 where an event is not as it must be
Legal(items, n, events) ==
    FoldLeft(LAMBDA s, ev :
                 TLCEval(IF ~s.ok THEN s
                         ELSE CASE ev.e = "start" -> [s EXCEPT !.pos[ev.it] = 1]
                                [] ev.e = "item" -> IF s.pos[ev.it] > 0 /\ s.pos[ev.it] <= Len(items) /\ ev.v = items[s.pos[ev.it]]
                                                    THEN [s EXCEPT !.pos[ev.it] = @ + 1] ELSE [s EXCEPT !.ok = FALSE]
                                [] ev.e = "end" -> IF s.pos[ev.it] = Len(items) + 1 THEN s ELSE [s EXCEPT !.ok = FALSE]
                                [] OTHER -> [s EXCEPT !.ok = FALSE]),
             [ok |-> TRUE, pos |-> [j \in 1..n |-> 0]], events).ok
---------------------------------------------------------------------------
CONSTANTS Size, Its, Most, OwnPosition
VARIABLES pos, events
Items == [x \in 1..Size |-> <<x>>]
Init == pos = [j \in 1..Its |-> 0] /\ events = <<>>
Set(j, p) == pos' = [k \in 1..Its |-> IF k = j THEN p ELSE IF OwnPosition \/ pos[k] = 0 THEN pos[k] ELSE p]
Start(j) == Set(j, 1) /\ events' = Append(events, [it |-> j, e |-> "start", v |-> <<>>])
Step(j) == /\ pos[j] > 0
           /\ IF pos[j] <= Size
              THEN Set(j, pos[j] + 1) /\ events' = Append(events, [it |-> j, e |-> "item", v |-> Items[pos[j]]])
              ELSE pos' = pos /\ events' = Append(events, [it |-> j, e |-> "end", v |-> <<>>])
Next == Len(events) < Most /\ \E j \in 1..Its : Start(j) \/ Step(j)
Spec == Init /\ [][Next]_<<pos, events>>
Independent == Legal(Items, Its, events)
=============================================================================
