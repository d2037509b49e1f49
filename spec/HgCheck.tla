------------------------------- MODULE HgCheck -------------------------------
(* Judges a history of a hash group builder (P22):                            *)
(*  [pair, maxd, maxi, ops: Seq([k, h, size, ok, obs])  observations after it *)
(*                          or  [k: "group", nc, ss, ss2, leaf, sub, ok, got, end, bytes, parsed]] *)
(* got/end: what the groups held when taken, and at the end of the history.   *)
EXTENDS Wire, Judge
B == INSTANCE HgBuilder WITH MaxOps <- 0, pair <- 0, s <- 0, n <- 0, log <- 0

IsGroup(op) == op.k \in {"group", "ptrs"}
States(r) == FoldLeft(LAMBDA acc, op : Append(acc, IF IsGroup(op) THEN acc[Len(acc)] ELSE B!After(acc[Len(acc)], op)),
                      <<B!Start(r.pair, r.maxd, r.maxi)>>, r.ops)

WireGroup(g) ==
    [gd |-> Opt(g.gd, LAMBDA d : <<[sts |-> Opt(d.sts, LAMBDA x : <<IntToNum(x)>>), std |-> <<>>,
                                       ls |-> Opt(d.ls, LAMBDA x : <<IntToNum(x)>>), ld |-> <<>>,
                                       nc |-> Opt(d.nc, LAMBDA x : <<IntToNum(x)>>), ssid |-> Opt(d.ss, LAMBDA x : <<IntToNum(x)>>)]>>),
     ptrs |-> [i \in DOMAIN g.ptrs |-> [a |-> 1, v |-> [j \in 1..32 |-> (g.ptrs[i] * 7 + j) % 256]]]]
Expected(s, op) ==
    IF Len(s) = 1 THEN <<WireGroup(B!Group(s[1], op.nc, op.ss, op.leaf, op.sub))>>
    ELSE <<WireGroup(B!Group(s[1], op.nc, op.ss, op.leaf, op.sub)), WireGroup(B!Group(s[2], op.nc2, op.ss2, op.leaf, op.sub))>>

ObsOk(pair, o, e) == /\ (pair = 0 => o.dc = e.dc /\ o.ic = e.ic)
                     /\ o.ds = e.ds /\ o.is = e.is
Clauses(r) ==
    LET st == TLCEval(States(r))
        adds == {i \in DOMAIN r.ops : ~IsGroup(r.ops[i])}
        groups == {i \in DOMAIN r.ops : IsGroup(r.ops[i])}
        refused(i) == B!Refused(st[i][B!Target(st[i], r.ops[i])], r.ops[i])
        e(i) == B!Obs(st[i+1])
    IN << <<"accepts", \A i \in adds : ~refused(i) => r.ops[i].ok>>,
          <<"refuses", \A i \in adds : refused(i) => ~r.ops[i].ok>>,
          <<"counts", \A i \in adds : ObsOk(r.pair, r.ops[i].obs, e(i))>>,
          <<"full", \A i \in adds : r.ops[i].obs.df = e(i).df /\ r.ops[i].obs.if = e(i).if>>,
          <<"builds", \A i \in groups : r.ops[i].ok>>,
          <<"group", \A i \in groups : r.ops[i].ok =>
                LET x == Expected(st[i], r.ops[i])
                IN /\ Len(r.ops[i].got) = Len(x)
                   /\ \A j \in DOMAIN x : r.ops[i].got[j].ptrs = x[j].ptrs
                                          /\ (r.ops[i].k = "group" => r.ops[i].got[j].gd = x[j].gd)>>,
          <<"wire", \A i \in groups : r.ops[i].ok /\ r.ops[i].k = "group" =>
                LET x == Expected(st[i], r.ops[i])
                IN r.ops[i].bytes = Cat([j \in DOMAIN x |-> EncHashGroup(x[j])])>>,
          <<"taken-group-changes", \A i \in groups : r.ops[i].ok => r.ops[i].end = r.ops[i].got>> >>

VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
