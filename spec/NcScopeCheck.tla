----------------------------- MODULE NcScopeCheck -----------------------------
(* Judges a recorded walk (P18): [T, root, steps, ok, fetched: Seq([name: opt, kid: node or 0]), out: Seq(bytes)] *)
EXTENDS Judge, Wire
N == INSTANCE NcScope WITH d1 <- 0, d3 <- 0, d7 <- 0, d4 <- 0, nc <- 0, st <- 0

Clauses(r) ==
    LET e == N!Walked(r.T, r.root, r.steps)
        m == IF Len(r.fetched) < Len(e.fetched) THEN Len(r.fetched) ELSE Len(e.fetched)
    IN << <<"specification-ended", N!Over(e)>>,
          <<"error", e.err => ~r.ok>>,
          <<"no-error", ~e.err => r.ok>>,
          <<"order", \A i \in 1..m : r.fetched[i].kid = e.fetched[i].kid>>,
          <<"names", \A i \in 1..m : r.fetched[i].name = e.fetched[i].name>>,
          <<"fetches", Len(r.fetched) = Len(e.fetched)>>,
          <<"data", r.out = e.out>> >>
       \o IF PID # "P24" THEN <<>>
          ELSE LET seen == {e.fetched[i].kid : i \in DOMAIN e.fetched} \cup {r.root}
                   short(x, n) == SubSeq(r.hs[x], 1, n)
                   glen(g) == IF g.nodes = <<>> THEN 0 ELSE Len(g.nodes[1])
                   kids(x) == UNION {{r.T[x].groups[g].kids[k] : k \in DOMAIN r.T[x].groups[g].kids} : g \in DOMAIN r.T[x].groups}
               IN << <<"count", r.ok => \A q \in DOMAIN r.counts : r.counts[q] = 1 + Len(e.fetched)>>,
                     <<"again", \A q \in DOMAIN r.again : r.again[q]>>,
                     <<"graph-nodes", (r.ok /\ r.graph # <<>>) =>
                         LET g == r.graph[1] IN glen(g) > 2 /\ {g.nodes[x] : x \in DOMAIN g.nodes} = {short(x, glen(g)) : x \in seen}>>,
                     <<"graph-edges", (r.ok /\ r.graph # <<>>) =>
                         LET g == r.graph[1] IN {<<g.edges[x].a, g.edges[x].b>> : x \in DOMAIN g.edges}
                                                = UNION {{<<short(x, glen(g)), short(y, glen(g))>> : y \in kids(x)} : x \in seen}>> >>

VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
