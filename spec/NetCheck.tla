------------------------------ MODULE NetCheck ------------------------------
(* Judges what a receiver got from a network writer (P27).                    *)
(*  [sent: Seq(packet bytes, in the order of the puts), got: Seq(byte) (all that the receiver read), ok: BOOL (all puts returned),        *)
(*   parsed: Seq([ok, b]) the pieces, cut by this judge's rule, read and serialized again by the library,                                *)
(*   pub: opt [file: Seq(byte), ok: BOOL, out: Seq(byte)] retrieval from the received packets]                                           *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Judge
N == INSTANCE NetStream WITH MaxPuts <- 0, ShortWrites <- TRUE, Retry <- TRUE, puts <- 0, todo <- 0, wire <- 0, got <- 0, closed <- 0
\* CCNx: version, type, two bytes of packet length
HeaderLen(s) == IF Len(s) < 8 THEN 0 ELSE LET n == 256 * s[3] + s[4] IN IF n < 8 THEN 0 ELSE n
\* the places where the stream is cut, without copying the rest of the stream each time
Cuts(s) ==
    LET step(a, k) == IF a.at >= Len(s) \/ a.stuck THEN a
                      ELSE LET n == IF Len(s) - a.at < 8 THEN 0 ELSE 256 * s[a.at + 3] + s[a.at + 4]
                           IN IF n < 8 \/ a.at + n > Len(s) THEN [a EXCEPT !.stuck = TRUE]
                              ELSE [at |-> a.at + n, cuts |-> Append(a.cuts, a.at + n), stuck |-> FALSE]
    IN FoldLeft(step, [at |-> 0, cuts |-> <<>>, stuck |-> FALSE], [k \in 1..(Len(s) \div 8 + 1) |-> k])
Pieces(s) == LET c == Cuts(s).cuts IN [k \in DOMAIN c |-> SubSeq(s, (IF k = 1 THEN 0 ELSE c[k-1]) + 1, c[k])]
\* on short streams the two ways of cutting agree
Agree(s) == Len(s) > 400 \/ (LET d == N!Divide(s, HeaderLen) IN d.ps = Pieces(s) /\ (d.rest = <<>>) = ~Cuts(s).stuck)
Clauses(r) ==
    LET ps == TLCEval(Pieces(r.got))
    IN << <<"puts", r.ok>>,
          <<"cut", Agree(r.got)>>,
          <<"whole-packets", ~Cuts(r.got).stuck>>,
          <<"number", Len(ps) = Len(r.sent)>>,
          <<"bytes-and-order", \A k \in 1..Len(r.sent) : k <= Len(ps) => ps[k] = r.sent[k]>>,
          <<"parsed", Len(r.parsed) = Len(r.sent) /\ \A k \in DOMAIN r.parsed : r.parsed[k].ok /\ k <= Len(r.sent) /\ r.parsed[k].b = r.sent[k]>>,
          <<"retrieved", r.pub # <<>> => (r.pub[1].ok /\ r.pub[1].out = r.pub[1].file)>> >>

VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
