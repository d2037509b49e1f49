------------------------------- MODULE WalkCheck -------------------------------
(* Judges walks by one traversal object (P30): [T, root, steps, hist: Seq of                        *)
(*    [op: "rsa", s] / [op: "aes", num, ver] the keystore learns                                     *)
(*    [op: "priv", w, on] it gets the private key w, or the public part instead                        *)
(*    [op: "walk", on: with a keystore, ok, fetched: Seq(node), out: Seq(bytes), count]]             *)
EXTENDS Judge, Wire
W == INSTANCE Walk WITH All <- TRUE, T <- 0, st <- 0
\* the keystore, and what the walks should have done so far (walks without a keystore do not see it)
Entry(r, acc, e) ==
    CASE e.op = "rsa" -> [acc EXCEPT !.ks.rsa = @ \cup {e.s}]
      [] e.op = "aes" -> [acc EXCEPT !.ks.aes = (e.num :> e.ver) @@ @]
      [] e.op = "priv" -> [acc EXCEPT !.ks.priv = IF e.on THEN @ \cup {e.w} ELSE @ \ {e.w}]
      [] OTHER -> LET w == W!Walked(r.T, [acc.ks EXCEPT !.on = e.on], r.root, r.steps)
                  IN [acc EXCEPT !.want = Append(@, w), !.ks = IF e.on THEN w.ks ELSE @]
Clauses(r) ==
    LET all == TLCEval(FoldLeft(LAMBDA acc, e : TLCEval(Entry(r, acc, e)),
                                [ks |-> [on |-> TRUE, rsa |-> {}, priv |-> {}, aes |-> <<>>], want |-> <<>>], r.hist))
        hist == SelectSeq(r.hist, LAMBDA e : e.op = "walk")
        walks == DOMAIN hist
        want == all.want
    IN << <<"specification-ended", \A i \in walks : W!Over(want[i])>>,
          <<"refused", \A i \in walks : want[i].err => ~hist[i].ok>>,
          <<"accepted", \A i \in walks : ~want[i].err => hist[i].ok>>,
          <<"fetches", \A i \in walks : hist[i].fetched = want[i].fetched>>,
          <<"data", \A i \in walks : hist[i].out = [j \in DOMAIN want[i].out |-> r.T[want[i].out[j]].pl]>> >>
VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
