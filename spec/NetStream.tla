------------------------------ MODULE NetStream ------------------------------
(***************************************************************************)
(* Packets written to a byte stream (P27). A put hands one packet to the     *)
(* connection; the connection takes as many bytes at a time as it likes      *)
(* (short writes) and delivers them in pieces of any size. The receiver cuts *)
(* the stream by the length in each packet header and by nothing else.       *)
(* A byte of the model is a number; the first byte of a packet is its length.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

\* ---- dividing a stream by its headers; Len0(s): the length the header at the front of s claims, 0: not readable
Divide(s, Len0(_)) ==
    LET step(a, k) == IF a.rest = <<>> \/ a.stuck THEN a
                      ELSE LET n == Len0(a.rest)
                           IN IF n = 0 \/ n > Len(a.rest) THEN [a EXCEPT !.stuck = TRUE]
                              ELSE [ps |-> Append(a.ps, SubSeq(a.rest, 1, n)), rest |-> SubSeq(a.rest, n + 1, Len(a.rest)), stuck |-> FALSE]
    IN FoldLeft(step, [ps |-> <<>>, rest |-> s, stuck |-> FALSE], [k \in 1..Len(s) |-> k])

---------------------------------------------------------------------------
CONSTANTS MaxPuts,
          ShortWrites,      \* the connection may take only a part of what it is given
          Retry             \* the sender goes on with what was not taken (FALSE: a bad idea)
Packets == {<<1>>, <<2, 9>>, <<3, 1, 2>>}
VARIABLES puts,             \* the packets handed over so far
          todo,             \* bytes of the last one that the connection did not take yet
          wire, got, closed
vars == <<puts, todo, wire, got, closed>>
Init == puts = <<>> /\ todo = <<>> /\ wire = <<>> /\ got = <<>> /\ closed = FALSE
Put(p) == /\ ~closed /\ todo = <<>> /\ Len(puts) < MaxPuts
          /\ puts' = Append(puts, p) /\ todo' = p
          /\ UNCHANGED <<wire, got, closed>>
Take(n) == /\ todo # <<>> /\ n \in 1..Len(todo) /\ (ShortWrites \/ n = Len(todo))
           /\ wire' = wire \o SubSeq(todo, 1, n)
           /\ todo' = IF Retry THEN SubSeq(todo, n + 1, Len(todo)) ELSE <<>>
           /\ UNCHANGED <<puts, got, closed>>
Deliver(n) == /\ n \in 1..Len(wire)
              /\ got' = got \o SubSeq(wire, 1, n) /\ wire' = SubSeq(wire, n + 1, Len(wire))
              /\ UNCHANGED <<puts, todo, closed>>
Close == ~closed /\ todo = <<>> /\ closed' = TRUE /\ UNCHANGED <<puts, todo, wire, got>>
Done == closed /\ wire = <<>> /\ UNCHANGED vars
Next == (\E p \in Packets : Put(p)) \/ (\E n \in 1..3 : Take(n)) \/ (\E n \in 1..3 : Deliver(n)) \/ Close \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ \A n \in 1..3 : WF_vars(Deliver(n))

First(s) == s[1]
\* what was received is always a prefix of the packets put, cut where they were cut
Faithful == LET d == Divide(got, First) IN IsPrefix(d.ps, puts) /\ (d.rest # <<>> => IsStrictPrefix(d.ps, puts))
Delivered == closed ~> (wire = <<>>)
Complete == (closed /\ wire = <<>>) => (Divide(got, First).ps = puts /\ Divide(got, First).rest = <<>>)
=============================================================================
