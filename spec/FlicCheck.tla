------------------------------ MODULE FlicCheck ------------------------------
(* Judges publications (P01-P07), traversals (P24) and their combination      *)
(* against FlicTree. A record is one publication:                             *)
(*   [c: configuration, file: bytes, ok: BOOLEAN, ev: Seq(event), ...]        *)
EXTENDS FlicTree, Judge

IsPrefixSeq(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Total(r) == IntToNum(Len(r.file))

\* P01: retrievals r.rets: Seq([how, ok, out])
P01(r) ==
    << <<"publish-ok", Feasible(r.c, Total(r)) => r.ok>>,
       <<"retrieve-ok", r.ok => \A i \in DOMAIN r.rets : r.rets[i].ok>>,
       <<"retrieve-exact", r.ok => \A i \in DOMAIN r.rets : r.rets[i].ok => r.rets[i].out = r.file>>,
       <<"no-wrong-bytes", r.ok => \A i \in DOMAIN r.rets : IsPrefixSeq(r.rets[i].out, r.file)>> >>

\* P02
P02(r) ==
    IF ~r.ok THEN <<>>
    ELSE
    LET o == Objs(r.ev)
        n == Len(o)
        kids == Kids(o)
        bel == TLCEval(Below(o, kids))
        allp == TLCEval(Cat([i \in DOMAIN o |-> [k \in DOMAIN o[i].ptrs |-> o[i].ptrs[k].h]]))
        times(h, s) == Cardinality({i \in DOMAIN s : s[i] = h})
        hs == TLCEval([i \in DOMAIN o |-> o[i].h])
        ds == TLCEval(DataSeq(o))
        levels == bel[n].lv
    IN << <<"readable", \A i \in DOMAIN o : o[i].ok>>,
          <<"root", n > 0 /\ o[n].k = "man" /\ o[n].co.name = <<r.c.name>> /\ Len(o[n].ptrs) = 1
                    /\ (Len(kids[n]) = 1 => kids[n][1] \in Manifests(o))>>,
          <<"resolved", \A i \in DOMAIN o : \A k \in DOMAIN kids[i] : kids[i][k] # 0 /\ o[i].ptrs[k].a = 1>>,
          <<"exactly-once", \A i \in 1..(n-1) : times(hs[i], allp) = times(hs[i], hs)>>,
          <<"root-unpointed", times(hs[n], allp) = 0 /\ times(hs[n], hs) = 1>>,
          <<"preorder", [j \in DOMAIN bel[n].data |-> hs[bel[n].data[j]]] = [j \in DOMAIN ds |-> hs[ds[j]]]>>,
          <<"direct-first", \A i \in Manifests(o) : \A k \in 1..(Len(kids[i]) - 1) :
                               (kids[i][k] # 0 /\ o[kids[i][k]].k = "man") => (kids[i][k+1] # 0 /\ o[kids[i][k+1]].k = "man")>>,
          <<"full-levels", \A l \in 2..Len(levels) : \A j \in 2..Len(levels[l]) :
                               levels[l][j] = levels[l][Len(levels[l])] /\ levels[l][1] <= levels[l][j]>> >>

\* P03
P03(r) ==
    LET o == Objs(r.ev)
        n == Len(o)
        last == IF r.ok THEN n - 1 ELSE n
    IN << <<"packet-size", \A i \in 1..last : o[i].len <= r.c.maxp>>,
          <<"degree", r.c.deg > 0 => \A i \in Manifests(o) : Len(o[i].ptrs) <= r.c.deg>>,
          <<"readable", \A i \in DOMAIN o : o[i].ok>>,
          <<"refused-early", ~r.ok => Manifests(o) = {}>> >>

\* P04
P04(r) ==
    IF ~r.ok THEN <<>>
    ELSE
    LET o == Objs(r.ev)
        ds == TLCEval(DataSeq(o))
        ps == PayloadSize(r.c)
        pl(j) == o[ds[j]].co.pl[1]
        nd == Len(ds)
    IN << <<"readable", \A i \in DOMAIN o : o[i].ok>>,
          <<"concatenate", Cat([j \in DOMAIN ds |-> pl(j)]) = r.file>>,
          <<"largest", \A j \in 1..(nd - 1) : Len(pl(j)) = ps>>,
          <<"last", nd > 0 /\ Len(pl(nd)) \in 1..ps>> >>

\* P05
P05(r) ==
    IF ~r.ok THEN <<>>
    ELSE
    LET o == Objs(r.ev)
        n == Len(o)
        kids == Kids(o)
        bel == TLCEval(Below(o, kids))
        size(i, k) == IF kids[i][k] \in 1..(i-1) THEN bel[kids[i][k]].bytes ELSE 0
        inGroup(i, g) == SelectSeq([k \in DOMAIN kids[i] |-> k], LAMBDA k : o[i].ptrs[k].g = g)
        total(i, g) == LET ks == inGroup(i, g) IN SumSeq([x \in DOMAIN ks |-> size(i, ks[x])])
        direct(i, g) == LET ks == SelectSeq(inGroup(i, g), LAMBDA k : kids[i][k] # 0 /\ o[kids[i][k]].k = "data")
                        IN SumSeq([x \in DOMAIN ks |-> size(i, ks[x])])
        nodeSize(i) == IF o[i].node.nd = <<>> THEN <<>> ELSE o[i].node.nd[1].sts
        groups(i) == DOMAIN o[i].node.hgs
        gdOf(i, g) == o[i].node.hgs[g].gd
    IN << <<"readable", \A i \in DOMAIN o : o[i].ok>>,
          <<"node-size", \A i \in Manifests(o) : nodeSize(i) # <<>> => nodeSize(i)[1] = IntToNum(bel[i].bytes)>>,
          <<"node-size-present", r.c.ann.ns => \A i \in Manifests(o) : nodeSize(i) # <<>>>>,
          <<"group-size-present", r.c.ann.gs => \A i \in Manifests(o) : \A g \in groups(i) : gdOf(i, g) # <<>> /\ gdOf(i, g)[1].sts # <<>>>>,
          <<"leaf-size-present", r.c.ann.gl => \A i \in Manifests(o) \ {n} : \A g \in groups(i) : gdOf(i, g) # <<>> /\ gdOf(i, g)[1].ls # <<>>>>,
          <<"group-size", \A i \in Manifests(o) : \A g \in groups(i) :
                (gdOf(i, g) # <<>> /\ gdOf(i, g)[1].sts # <<>>) => gdOf(i, g)[1].sts[1] = IntToNum(total(i, g))>>,
          <<"leaf-size", \A i \in Manifests(o) : \A g \in groups(i) :
                (gdOf(i, g) # <<>> /\ gdOf(i, g)[1].ls # <<>>) => gdOf(i, g)[1].ls[1] = IntToNum(direct(i, g))>>,
          <<"root-size", nodeSize(n) # <<>> => nodeSize(n)[1] = Total(r)>> >>

\* P06
P06(r) ==
    IF ~r.ok THEN <<>>
    ELSE
    LET o == Objs(r.ev)
        n == Len(o)
        kids == Kids(o)
        c == r.c
        defs == IF o[n].node.nd = <<>> THEN <<>> ELSE o[n].node.nd[1].ncs
        def(nc) == SelectSeq(defs, LAMBDA d : nc # <<>> /\ d.id = nc[1])
        \* the number of the k-th pointer of i: its group's start plus its offset
        num(i, k) == LET p == o[i].ptrs[k] IN IntToNum(NumToInt(p.ssid[1]) + p.j - 1)
        built(i, k) ==       \* the name constructed for the pointer: opt (opt Name)
            LET d == def(o[i].ptrs[k].nc)
            IN IF Len(d) # 1 THEN <<>>
               ELSE IF d[1].s.k = "seg" /\ (o[i].ptrs[k].ssid = <<>> \/ Len(o[i].ptrs[k].ssid[1]) > 3) THEN <<>>
               ELSE <<NameOf(d[1].s, IF d[1].s.k = "seg" THEN num(i, k) ELSE <<0>>)>>
        ds == TLCEval(DataSeq(o))
        ms == Manifests(o)
        top == IF Len(kids[n]) = 1 THEN kids[n][1] ELSE 0
        idComp(i) == LET nm == o[i].co.name[1] IN nm[Len(nm)]
        nonroot == ms \ {n}
    IN << <<"readable", \A i \in DOMAIN o : o[i].ok>>,
          <<"definitions-once", \A i, j \in DOMAIN defs : i # j => defs[i].id # defs[j].id>>,
          <<"constructed", \A i \in ms : \A k \in DOMAIN kids[i] :
                kids[i][k] # 0 => built(i, k) = <<o[kids[i][k]].co.name>>>>,
          <<"schema", \A i \in ms : \A k \in DOMAIN kids[i] :
                LET d == def(o[i].ptrs[k].nc)
                IN kids[i][k] # 0 => (Len(d) = 1 /\ d[1].s = Schema(c, o[kids[i][k]].k = "man"))>>,
          <<"root-name", o[n].co.name = <<c.name>>>>,
          <<"data-names", \A j \in DOMAIN ds : o[ds[j]].co.name = NameOf(Schema(c, FALSE), IntToNum(c.first + j - 1))>>,
          <<"final-chunk", \A j \in DOMAIN ds : o[ds[j]].co.fc = IF c.schema = "seg" /\ j = Len(ds) THEN <<IntToNum(c.first + j - 1)>> ELSE <<>>>>,
          <<"manifest-numbers", c.schema = "seg" =>
                /\ \A i, j \in nonroot : i # j => idComp(i) # idComp(j)
                /\ top # 0 /\ idComp(top) = [t |-> ManifestIdT, v |-> <<0>>]>>,
          <<"no-final-chunk-on-manifest", \A i \in ms : o[i].co.fc = <<>>>>,
          <<"expiry", /\ o[n].co.exp = c.rexp
                      /\ \A i \in nonroot : o[i].co.exp = c.mexp
                      /\ \A j \in DOMAIN ds : o[ds[j]].co.exp = c.dexp>>,
          <<"signature", /\ \A i \in 1..(n-1) : o[i].val = <<>>
                         /\ c.sign = "none" => o[n].val = <<>>
                         /\ c.sign # "none" => (o[n].val # <<>> /\ o[n].val[1].k = c.sign)>> >>

\* P07: r.fails: Seq([k, n, same, hs]): a publication whose writer fails on its k-th object
P07(r) ==
    IF ~r.ok THEN <<>>
    ELSE
    LET o == Objs(r.ev)
        n == Len(o)
        f == FirstIdx(o)
    IN << <<"readable", \A i \in DOMAIN o : o[i].ok>>,
          <<"no-dangling", \A i \in DOMAIN o : \A k \in DOMAIN o[i].ptrs : Idx(f, o[i].ptrs[k].h) \in 1..(i-1)>>,
          <<"root-last", n > 0 /\ o[n].k = "man" /\ o[n].co.name = <<r.c.name>> /\ (r.c.sign # "none" => o[n].val # <<>>)
                         /\ \A i \in 1..(n-1) : o[i].val = <<>>>>,
          <<"one-file", \A j \in 1..(n-1) : o[j].h # o[n].h>>,
          <<"stops", \A q \in DOMAIN r.fails : r.fails[q].n = r.fails[q].k - 1>>,
          <<"same-error", \A q \in DOMAIN r.fails : r.fails[q].same>>,
          <<"same-objects", r.c.enc = <<>> => \A q \in DOMAIN r.fails : \A j \in 1..r.fails[q].n :
                               j < n => r.fails[q].hs[j] = o[j].h>> >>

\* P08: r.faults: Seq([what, ok, same, writes: Seq(bytes)]); same: the error is the one the store raised (if the store raised one)
P08(r) ==
    LET o == Objs(r.ev)
        ds == TLCEval(DataSeq(o))
        \* where a data object may end
        ends == TLCEval(FoldLeft(LAMBDA acc, j : Append(acc, acc[Len(acc)] + Len(o[ds[j]].co.pl[1])), <<0>>, [j \in DOMAIN ds |-> j]))
    IN << <<"exact-or-error", \A q \in DOMAIN r.faults : r.faults[q].ok => r.faults[q].out = r.file>>,
          <<"prefix", \A q \in DOMAIN r.faults : IsPrefixSeq(r.faults[q].out, r.file)>>,
          <<"whole-objects", \A q \in DOMAIN r.faults : \E j \in DOMAIN ends : ends[j] = Len(r.faults[q].out)>>,
          <<"same-error", \A q \in DOMAIN r.faults : r.faults[q].same>> >>

\* P24: r.trs: Seq([fetches: Seq([name: opt Name, h]), writes: Seq(bytes), count, ok, graph: opt [nodes, edges, looks]]);
\*      r.bg: opt graph filled in by the publication; r.subs: Seq([i, ok, fetches, writes, count]): walks that start at object i,
\*      with the publisher's name constructors
P24(r) ==
    IF ~r.ok THEN <<>>
    ELSE
    LET o == Objs(r.ev)
        n == Len(o)
        kids == Kids(o)
        bel == TLCEval(Below(o, kids))
        \* the pre-order walk: Seq of events
        walk == TLCEval(FoldLeft(LAMBDA acc, i :
                    TLCEval(Append(acc, <<i>> \o Cat([k \in DOMAIN kids[i] |-> IF kids[i][k] \in 1..(i-1) THEN acc[kids[i][k]] ELSE <<0>>]))),
                  <<>>, [i \in DOMAIN o |-> i]))
        w == TLCEval(walk[n])
        ds == bel[n].data
        asked(v) == [x \in DOMAIN v |-> [name |-> o[v[x]].co.name, h |-> o[v[x]].h]]
        data(v) == [x \in DOMAIN v |-> o[v[x]].co.pl[1]]
        fetches == TLCEval(asked(w))
        writes == TLCEval(data(ds))
        \* the graph identifies an object by the first bytes of its hash
        short(h, m) == SubSeq(h, 1, m)
        glen(g) == IF g.nodes = <<>> THEN 0 ELSE Len(g.nodes[1])
        graphs == {r.trs[q].graph[1] : q \in {x \in DOMAIN r.trs : r.trs[x].ok /\ r.trs[x].graph # <<>>}} \cup Range(r.bg)
        \* (the first bytes of two hashes may be the same)
        ambiguous(m) == Cardinality({o[j].h : j \in DOMAIN o}) # Cardinality({short(o[j].h, m) : j \in DOMAIN o})
        alone(i, m) == \A j \in DOMAIN o : o[j].h # o[i].h => short(o[j].h, m) # short(o[i].h, m)
        nodes(m) == {short(o[w[x]].h, m) : x \in DOMAIN w}
        edges(m) == UNION {{<<short(o[i].h, m), short(o[i].ptrs[k].h, m)>> : k \in DOMAIN o[i].ptrs} : i \in Manifests(o)}
    IN << <<"readable", \A i \in DOMAIN o : o[i].ok>>,
          <<"completes", \A q \in DOMAIN r.trs : r.trs[q].ok>>,
          <<"fetches", \A q \in DOMAIN r.trs : r.trs[q].ok => r.trs[q].fetches = fetches>>,
          <<"writes", \A q \in DOMAIN r.trs : r.trs[q].ok => r.trs[q].writes = writes>>,
          <<"count", \A q \in DOMAIN r.trs : r.trs[q].ok => r.trs[q].count = Len(w)>>,
          <<"below", \A q \in DOMAIN r.subs : LET s == r.subs[q]
                IN s.ok /\ s.fetches = asked(Tail(walk[s.i])) /\ s.writes = data(bel[s.i].data) /\ s.count = Len(walk[s.i])>>,
          <<"graph-nodes", \A g \in graphs : glen(g) > 2 /\ {g.nodes[x] : x \in DOMAIN g.nodes} = nodes(glen(g))>>,
          <<"graph-edges", \A g \in graphs : {<<g.edges[x].a, g.edges[x].b>> : x \in DOMAIN g.edges} = edges(glen(g))>>,
          \* data and manifests can be told apart
          <<"graph-kinds", \A g \in graphs :
                LET amb == TLCEval(ambiguous(glen(g)))
                    ofkind(k) == TLCEval({short(o[i].h, glen(g)) : i \in {j \in DOMAIN o : o[j].k = k /\ (amb => alone(j, glen(g)))}})
                    colors(k) == LET s == ofkind(k) IN {g.looks[x].color : x \in {y \in DOMAIN g.looks : g.looks[y].h \in s}}
                IN /\ Cardinality(colors("data")) <= 1 /\ Cardinality(colors("man")) = 1
                   /\ colors("data") \cap colors("man") = {}>>,
          \* a walk labels segments with their numbers
          <<"graph-labels", \A q \in DOMAIN r.trs : (r.trs[q].ok /\ r.trs[q].graph # <<>>) =>
                LET g == r.trs[q].graph[1]
                    amb == TLCEval(ambiguous(glen(g)))
                    numbered == {i \in DOMAIN o : r.c.schema = "seg" /\ i # n /\ (amb => alone(i, glen(g)))}
                    labels == TLCEval({<<g.looks[x].h, g.looks[x].label>> : x \in DOMAIN g.looks})
                IN \A i \in numbered : <<short(o[i].h, glen(g)), ToString(LET nm == o[i].co.name[1] IN NumToInt(nm[Len(nm)].v))>> \in labels>> >>

\* what cannot be read or is not there cannot be judged further
Sound(r) ==
    LET o == Objs(r.ev)
        kids == Kids(o)
    IN << <<"objects", r.ev # <<>>>>,
          <<"readable", \A i \in DOMAIN o : o[i].ok>>,
          <<"resolved", \A i \in DOMAIN o : \A k \in DOMAIN kids[i] : kids[i][k] # 0>>,
          <<"stored-before", \A i \in DOMAIN o : \A k \in DOMAIN kids[i] : kids[i][k] < i>> >>
Clauses(r) ==
    IF PID # "P01" /\ PID # "P07" /\ r.ok /\ Violated(Sound(r)) # {} THEN Sound(r)
    ELSE
    CASE PID = "P01" -> P01(r)
      [] PID = "P02" -> P02(r)
      [] PID = "P03" -> P03(r)
      [] PID = "P04" -> P04(r)
      [] PID = "P05" -> P05(r)
      [] PID = "P06" -> P06(r)
      [] PID = "P07" -> P07(r)
      [] PID = "P08" -> P08(r)
      [] PID = "P24" -> P24(r)

VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
