------------------------------- MODULE NcScope -------------------------------
(***************************************************************************)
(* The walk of a manifest tree with name-constructor definitions, as a stack *)
(* machine. A tree T is a sequence of nodes:                                 *)
(*   [k: "data" | "man" | "other" | "missing", pl: bytes,                    *)
(*    defs: Seq([id, s]), groups: Seq([nc: opt Int, ss: opt Int, kids: Seq(node)])] *)
(* Schemas are those of Wire.tla; Construct(s, n) is the constructed name.   *)
(***************************************************************************)
EXTENDS Wire

Construct(s, n) == CASE s.k = "hash" -> <<>>
                     [] s.k = "prefix" -> s.name
                     [] s.k = "seg" -> <<Append(s.name[1], [t |-> NumToInt(s.sfx[1]), v |-> IntToNum(n)])>>
NoEnv == <<>>
\* the definitions of a node override those of its parent
Extend(env, defs) == FoldLeft(LAMBDA e, d : (d.id :> d.s) @@ e, env, defs)
Items(node) == Cat([g \in DOMAIN node.groups |->
                      LET G == node.groups[g]
                      IN [j \in DOMAIN G.kids |-> [nc |-> G.nc, n |-> IF G.ss = <<>> THEN 0 ELSE G.ss[1] + j - 1, kid |-> G.kids[j]]]])
Frame(T, x, env) == [node |-> x, env |-> Extend(env, T[x].defs), todo |-> Items(T[x])]
Begin(T, root) == [stack |-> <<Frame(T, root, NoEnv)>>, fetched |-> <<>>, out |-> <<>>, err |-> FALSE]
Over(st) == st.err \/ st.stack = <<>>
Step(T, st) ==
    IF Over(st) THEN st
    ELSE LET n == Len(st.stack)
             f == st.stack[n]
         IN IF f.todo = <<>> THEN [st EXCEPT !.stack = SubSeq(@, 1, n - 1)]
            ELSE LET i == Head(f.todo)
                     f2 == [f EXCEPT !.todo = Tail(@)]
                     rest == [st.stack EXCEPT ![n] = f2]
                 IN IF i.nc = <<>> \/ i.nc[1] \notin DOMAIN f.env THEN [st EXCEPT !.err = TRUE]
                    ELSE LET got == Append(st.fetched, [name |-> Construct(f.env[i.nc[1]], i.n), kid |-> i.kid])
                         IN CASE T[i.kid].k = "data" -> [st EXCEPT !.stack = rest, !.fetched = got, !.out = Append(@, T[i.kid].pl)]
                              [] T[i.kid].k = "man" -> [st EXCEPT !.stack = Append(rest, Frame(T, i.kid, f.env)), !.fetched = got]
                              [] OTHER -> [st EXCEPT !.err = TRUE, !.fetched = got]
\* the end of the walk, after at most n steps
Walked(T, root, n) == FoldLeft(LAMBDA st, i : TLCEval(Step(T, st)), Begin(T, root), [i \in 1..n |-> i])

---------------------------------------------------------------------------
\* The machine on small trees, against a definition of scope by ancestors
S(x) == [k |-> "seg", name |-> <<<<x>>>>, sfx |-> <<<<5>>>>, loc |-> <<>>, flags |-> <<>>]
DefSets == {<<>>, <<[id |-> 1, s |-> S("A")]>>, <<[id |-> 1, s |-> S("B")]>>, <<[id |-> 2, s |-> S("C")]>>,
            <<[id |-> 2, s |-> S("D")], [id |-> 1, s |-> S("E")]>>}
D(i) == [k |-> "data", pl |-> <<i>>, defs |-> <<>>, groups |-> <<>>]
M(defs, groups) == [k |-> "man", pl |-> <<>>, defs |-> defs, groups |-> groups]
G(nc, kids) == [nc |-> <<nc>>, ss |-> <<3>>, kids |-> kids]
\* root 1: data 2, manifests 3 and 4, data 5;  3: data 6, manifest 7, data 8;  7: data 9;  4: data 10, 11
Shape(d1, d3, d7, d4, nc) ==
    << M(d1, <<G(nc[1], <<2>>), G(nc[2], <<3, 4>>), G(nc[3], <<5>>)>>), D(2),
       M(d3, <<G(nc[4], <<6, 7>>), G(nc[5], <<8>>)>>), M(d4, <<G(nc[6], <<10, 11>>)>>), D(5), D(6),
       M(d7, <<G(nc[7], <<9>>)>>), D(8), D(9), D(10), D(11) >>
Path(x) == CASE x \in {2, 3, 4, 5} -> <<1>> [] x \in {6, 7, 8} -> <<1, 3>> [] x = 9 -> <<1, 3, 7>> [] x \in {10, 11} -> <<1, 4>>
NcOf(nc, x) == CASE x = 2 -> nc[1] [] x \in {3, 4} -> nc[2] [] x = 5 -> nc[3] [] x \in {6, 7} -> nc[4] [] x = 8 -> nc[5]
                 [] x \in {10, 11} -> nc[6] [] x = 9 -> nc[7]
VARIABLES d1, d3, d7, d4, nc, st
vars == <<d1, d3, d7, d4, nc, st>>
T == Shape(d1, d3, d7, d4, nc)
NCs == {<<1, 1, 1, 1, 1, 1, 1>>, <<2, 2, 2, 2, 2, 2, 2>>, <<1, 1, 2, 1, 2, 1, 2>>, <<2, 1, 1, 2, 1, 2, 1>>, <<1, 2, 1, 1, 1, 2, 1>>}
Init == /\ d1 \in DefSets /\ d3 \in DefSets /\ d7 \in DefSets /\ d4 \in DefSets /\ nc \in NCs
        /\ st = Begin(T, 1)
Next == ~Over(st) /\ st' = Step(T, st) /\ UNCHANGED <<d1, d3, d7, d4, nc>>
Spec == Init /\ [][Next]_vars
\* the nearest ancestor that defines the id decides
DefAt(x, id) == LET ds == {i \in DOMAIN T[x].defs : T[x].defs[i].id = id} IN IF ds = {} THEN <<>> ELSE <<T[x].defs[CHOOSE i \in ds : TRUE].s>>
Nearest(x) == LET p == Path(x)
                  c == {i \in DOMAIN p : DefAt(p[i], NcOf(nc, x)) # <<>>}
              IN IF c = {} THEN <<>> ELSE DefAt(p[Max(c)], NcOf(nc, x))
Order == <<2, 3, 6, 7, 9, 8, 4, 10, 11, 5>>
Scoped == \A i \in DOMAIN st.fetched :
             LET x == st.fetched[i].kid
             IN /\ x = Order[i]
                /\ Nearest(x) # <<>>
                /\ SubSeq(st.fetched[i].name[1], 1, 1) = Nearest(x)[1].name[1]
Undefined == st.err => Len(st.fetched) < 10 /\ Nearest(Order[Len(st.fetched) + 1]) = <<>>
AllVisited == (Over(st) /\ ~st.err) => [i \in DOMAIN st.fetched |-> st.fetched[i].kid] = Order /\ st.out = <<<<2>>, <<6>>, <<9>>, <<8>>, <<10>>, <<11>>, <<5>>>>
=============================================================================
