-------------------------------- MODULE Factory --------------------------------
(* The manifest factory (P31): what a manifest made of pointers, of hash groups, or of a node must hold.               *)
(* Options o: [ns, gs, gl: BOOLEAN, maxp: Int, enc: opt (see FlicTree)]                                                *)
(* A call: [src: "pointers" | "group" | "groups" | "node", ptrs: Seq(Hash), hgs: Seq(HashGroup), node: opt Node,        *)
(*          ncs: opt Seq(NcDef), nss, gss, gls, nc, ssid: opt Num, name: opt Name, exp: opt Num, full: BOOLEAN]          *)
(* As a state machine: a factory makes manifests one after the other and counts those it made; a call that would        *)
(* exceed the packet size makes none, and is not counted.                                                              *)
EXTENDS FlicTree
CONSTANT Strict       \* FALSE: the options are ignored (negative control)

Allowed(o, what, x) == IF Strict /\ ~o[what] THEN <<>> ELSE x
GroupDataOf(o, c) ==
    LET g == [sts |-> Allowed(o, "gs", c.gss), std |-> <<>>, ls |-> Allowed(o, "gl", c.gls), ld |-> <<>>, nc |-> c.nc, ssid |-> c.ssid]
    IN IF g.sts = <<>> /\ g.ls = <<>> /\ g.nc = <<>> /\ g.ssid = <<>> THEN <<>> ELSE <<g>>
NodeDataOf(o, c) ==
    LET s == Allowed(o, "ns", c.nss)
    IN IF s = <<>> /\ c.ncs = <<>> THEN <<>>
       ELSE <<[sts |-> s, std |-> <<>>, loc |-> <<>>, ncs |-> IF c.ncs = <<>> THEN <<>> ELSE c.ncs[1], vend |-> <<>>]>>
NodeOf(o, c) ==
    IF c.src = "node" THEN c.node[1]
    ELSE [nd |-> NodeDataOf(o, c),
          hgs |-> IF c.src = "pointers" THEN <<[gd |-> GroupDataOf(o, c), ptrs |-> c.ptrs]>> ELSE c.hgs,
          pad |-> <<>>]
ManifestOf(o, c) == BigManifest(o, NodeOf(o, c), c.full)        \* encrypted: with zeros for what is secret
Fits(o, c) == Len(EncManifest(ManifestOf(o, c))) <= o.maxp

---------------------------------------------------------------------------
\* Model: every combination of what is given and allowed, several calls with one factory
VARIABLES opts, made, count
vars == <<opts, made, count>>
Some == {<<>>, <<<<7>>>>}
H == [a |-> 1, v |-> Zeros(32)]
Calls == {[src |-> s, ptrs |-> <<H>>, hgs |-> <<[gd |-> <<>>, ptrs |-> <<H, H>>]>>, node |-> <<[nd |-> <<>>, hgs |-> <<[gd |-> <<>>, ptrs |-> <<H>>]>>, pad |-> <<>>]>>,
           ncs |-> n, nss |-> a, gss |-> b, gls |-> c, nc |-> d, ssid |-> e, name |-> <<>>, exp |-> <<>>, full |-> FALSE] :
          s \in {"pointers", "group", "node"}, n \in {<<>>, <<<<>>>>}, a \in Some, b \in Some, c \in Some, d \in Some, e \in Some}
Init == /\ opts \in {[ns |-> a, gs |-> b, gl |-> c, maxp |-> m, enc |-> <<>>] : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN, m \in {60, 1500}}
        /\ made = <<>>
        /\ count = 0
Build(c) == /\ Len(made) < 2
            /\ IF Fits(opts, c) THEN /\ made' = Append(made, NodeOf(opts, c))
                                     /\ count' = count + 1
                                ELSE UNCHANGED <<made, count>>
            /\ UNCHANGED opts
Next == \E c \in Calls : Build(c)
Spec == Init /\ [][Next]_vars
Newest == made[Len(made)]
Groups(n) == {n.hgs[i].gd[1] : i \in {j \in DOMAIN n.hgs : n.hgs[j].gd # <<>>}}
OnlyAllowed == made # <<>> =>
    /\ ~opts.ns => \A d \in {Newest.nd[k] : k \in DOMAIN Newest.nd} : d.sts = <<>>
    /\ \A g \in Groups(Newest) : (~opts.gs => g.sts = <<>>) /\ (~opts.gl => g.ls = <<>>)
Counted == count = Len(made)
WellFormed == made # <<>> => GNodeB(EncNodeV(Newest)) = 2 /\ DNodeB(EncNodeV(Newest)) = Newest
=============================================================================
