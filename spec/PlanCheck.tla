------------------------------ MODULE PlanCheck ------------------------------
(* Judges plans and the trees built from them (P17).                          *)
(*   plan: [t: "plan", n, P, d, m, k, leaf, total, waste, h, np, nd]          *)
(*   lists: [t: "lists", n, P, fewest, least: Seq([d, m, k, waste]), and the plan of least waste and  *)
(*           height: d, m, k, leaf, total, waste, h]                             *)
(*   tree: [t: "tree", n, P, d, m, h, ev: events of the manifests, no root]   *)
EXTENDS FlicTree, Judge
PL == INSTANCE FlicPlan

Plan(r) ==
    << <<"uses-all-pointers", r.d + r.m = r.P /\ r.d >= 1 /\ r.m >= 0>>,
       <<"inner", r.k = PL!Inner(r.n, r.d, r.m)>>,
       <<"height", r.h = PL!Height(r.n, r.d, r.m)>>,
       <<"no-fewer-inner", r.k <= PL!MinInner(r.n, r.P)>>,
       <<"no-lower", r.h <= PL!MinHeight(r.n, r.P)>>,
       <<"no-less-waste", r.waste <= PL!LeastWaste(r.n, r.P, r.k)>>,
       <<"waste", r.k < PL!Inf => r.waste = PL!Waste(r.n, r.k, r.d, r.m)>>,
       <<"leaves", r.leaf = PL!Leaves(r.n, r.k, r.d, r.m)>>,
       <<"total", r.total = r.k + r.leaf>>,
       <<"inputs", r.np = r.P /\ r.nd = r.n>> >>

Tree(r) ==
    LET o == Objs(r.ev)
        n == Len(o)
        kids == Kids(o)
        \* 0: a data object
        direct(i) == Cardinality({k \in DOMAIN kids[i] : kids[i][k] = 0})
        indirect(i) == Cardinality({k \in DOMAIN kids[i] : kids[i][k] # 0})
        heights == TLCEval(FoldLeft(LAMBDA acc, i :
                      Append(acc, IF indirect(i) = 0 THEN 0
                                  ELSE 1 + Max({acc[kids[i][k]] : k \in {x \in DOMAIN kids[i] : kids[i][x] \in 1..(i-1)}} \cup {0})),
                      <<>>, [i \in DOMAIN o |-> i]))
        inner == {i \in DOMAIN o : indirect(i) > 0}
        full(i) == IF i \in inner THEN direct(i) = r.d /\ indirect(i) = r.m ELSE direct(i) = r.P
    IN << <<"readable", n > 0 /\ \A i \in DOMAIN o : o[i].ok>>,
          <<"is-the-best-plan", PL!Best([d |-> r.d, m |-> r.m], r.n, r.P)>>,
          <<"holds-all", SumSeq([i \in DOMAIN o |-> direct(i)]) = r.n>>,
          <<"degree", \A i \in DOMAIN o : Len(kids[i]) <= r.P>>,
          <<"uses-degree", (n > 1 \/ r.n >= r.P) => \E i \in DOMAIN o : Len(kids[i]) = r.P>>,
          <<"split", \A i \in inner : direct(i) <= r.d /\ indirect(i) <= r.m>>,
          \* one manifest of each level at most is not full
          <<"full", \A h \in {heights[i] : i \in DOMAIN o} : Cardinality({i \in DOMAIN o : i \in inner /\ heights[i] = h /\ ~full(i)}) <= 1>>,
          <<"planned-height", n > 0 => heights[n] = r.h /\ r.h = PL!Height(r.n, r.d, r.m)>> >>

\* the optimizer's lists: the splits (with room for manifests) of fewest inner manifests, and of least waste
Lists(r) ==
    LET withRoom == {m \in 1..(r.P - 1) : PL!Inner(r.n, r.P - m, m) < PL!Inf}
        inner(m) == PL!Inner(r.n, r.P - m, m)
        waste(m) == PL!Waste(r.n, inner(m), r.P - m, m)
        leastWaste == PL!Least(LAMBDA m : IF m \in withRoom THEN waste(m) ELSE PL!Inf, r.P)
        fewest == {m \in withRoom : inner(m) = PL!MinInner(r.n, r.P)}
        least == {m \in withRoom : waste(m) = leastWaste}
        real(l) == SelectSeq(l, LAMBDA s : s.m > 0)
        right(l) == \A j \in DOMAIN l : l[j].d + l[j].m = r.P /\ (l[j].m > 0 => (l[j].k = inner(l[j].m) /\ l[j].waste = waste(l[j].m)))
        once(l) == \A a, b \in DOMAIN l : a # b => l[a].m # l[b].m
        ms(l) == {l[j].m : j \in DOMAIN l}
    IN << <<"fewest", ms(r.fewest) = fewest>>,
          <<"least", ms(real(r.least)) = least /\ \A j \in DOMAIN r.least : r.least[j].m = 0 => r.n <= r.P>>,
          <<"values", right(r.fewest) /\ right(r.least)>>,
          <<"each-once", once(r.fewest) /\ once(r.least)>>,
          <<"least-waste", r.d + r.m = r.P /\ r.waste = leastWaste>>,
          <<"lowest-of-least", /\ \A m \in least : r.h <= PL!Height(r.n, r.P - m, m)
                               /\ r.m > 0 => (r.h = PL!Height(r.n, r.d, r.m) /\ r.k = inner(r.m) /\ r.leaf = PL!Leaves(r.n, r.k, r.d, r.m))
                               /\ r.m = 0 => (r.n <= r.P /\ r.h = 0)>>,
          <<"total", r.total = r.k + r.leaf>> >>

Clauses(r) == CASE r.t = "plan" -> Plan(r) [] r.t = "lists" -> Lists(r) [] OTHER -> Tree(r)

VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
