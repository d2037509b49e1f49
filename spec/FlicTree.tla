------------------------------ MODULE FlicTree ------------------------------
(***************************************************************************)
(* What a publication must be: the configuration, the names and sizes it     *)
(* implies, and the tree that a sequence of stored packets forms.            *)
(*                                                                           *)
(* A configuration c is                                                      *)
(*   [schema: "hash" | "prefix" | "seg", name: Name,                         *)
(*    mp, dp: opt Name (prefixes), ml, dl: opt Locs, maxp: Int, deg: Int     *)
(*    (0: none), rexp, mexp, dexp: opt Num, sign: "none" | "crc" | "rsa",    *)
(*    ann: [ns, gs, gl: BOOLEAN],                                            *)
(*    enc: opt [oaep: BOOLEAN, kn: Num, nlen: Int, mode: Int,                *)
(*              kdf: opt [alg, info: opt bytes], wrap: Int]]                 *)
(* An event e is [b: bytes (the packet), h: bytes (SHA-256 of the message),  *)
(*    pt: opt bytes (decrypted node)].                                       *)
(***************************************************************************)
EXTENDS Wire

ChunkT == 5
ManifestIdT == 16
MaxId == <<255, 255, 255>>

MPrefix(c) == IF c.mp = <<>> THEN c.name ELSE c.mp[1]
DPrefix(c) == IF c.dp = <<>> THEN c.name ELSE c.dp[1]
NameLoc(n) == <<[name |-> <<n>>, keyid |-> <<>>, digest |-> <<>>]>>
MLoc(c) == IF c.ml = <<>> THEN NameLoc(c.name) ELSE c.ml[1]
DLoc(c) == IF c.dl = <<>> THEN NameLoc(c.name) ELSE c.dl[1]

Schema(c, manifest) ==
    CASE c.schema = "hash" -> [k |-> "hash", name |-> <<>>, sfx |-> <<>>,
                               loc |-> <<IF manifest THEN MLoc(c) ELSE DLoc(c)>>, flags |-> <<>>]
      [] c.schema = "prefix" -> [k |-> "prefix", name |-> <<IF manifest THEN MPrefix(c) ELSE DPrefix(c)>>, sfx |-> <<>>,
                                 loc |-> <<>>, flags |-> <<>>]
      [] c.schema = "seg" -> [k |-> "seg", name |-> <<IF manifest THEN MPrefix(c) ELSE DPrefix(c)>>,
                              sfx |-> <<<<IF manifest THEN ManifestIdT ELSE ChunkT>>>>, loc |-> <<>>, flags |-> <<>>]
TwoGroups(c) == Schema(c, TRUE) # Schema(c, FALSE)

\* the name a schema constructs for number id (a Num; ignored unless segmented): optional Name
NameOf(s, id) == CASE s.k = "hash" -> <<>>
                   [] s.k = "prefix" -> s.name
                   [] s.k = "seg" -> <<Append(s.name[1], [t |-> NumToInt(s.sfx[1]), v |-> id])>>

---------------------------------------------------------------------------
\* Sizes that the configuration implies
NoVal == <<>>
DataPacket(c, id, pl, fc) ==
    [co |-> [name |-> NameOf(Schema(c, FALSE), id), exp |-> c.dexp, pt |-> <<0>>, pl |-> <<pl>>, fc |-> fc], val |-> NoVal]
PayloadSize(c) ==
    LET n == Len(EncPacket(DataPacket(c, MaxId, <<>>, IF c.schema = "seg" THEN <<MaxId>> ELSE <<>>)))
    IN c.maxp - n

\* the largest manifest with k pointers, every annotation included (total: the file length as a Num)
ZeroHash == [a |-> 1, v |-> Zeros(32)]
BigGroup(c, k, total) ==
    [gd |-> <<[sts |-> <<total>>, std |-> <<>>, ls |-> <<total>>, ld |-> <<>>, nc |-> <<<<1, 0>>>>,
               ssid |-> IF c.schema = "seg" THEN <<MaxId>> ELSE <<>>]>>,
     ptrs |-> [j \in 1..k |-> ZeroHash]]
BigNode(c, k, total, ncs) ==
    [nd |-> <<[sts |-> <<total>>, std |-> <<>>, loc |-> <<>>, ncs |-> ncs, vend |-> <<>>]>>,
     hgs |-> IF TwoGroups(c) /\ k > 1 THEN <<BigGroup(c, k - 1, total), BigGroup(c, 1, total)>> ELSE <<BigGroup(c, k, total)>>,
     pad |-> <<>>]
BigManifest(c, node, root) ==
    IF c.enc = <<>> THEN [ctx |-> <<>>, node |-> <<node>>, enc |-> <<>>, tag |-> <<>>]
    ELSE LET e == c.enc[1]
         IN [ctx |-> <<[k |-> IF e.oaep THEN "oaep" ELSE "aead", kn |-> e.kn, nonce |-> Zeros(e.nlen), mode |-> <<e.mode>>, kdf |-> e.kdf,
                        wrap |-> IF e.oaep /\ root
                                 THEN <<[keyid |-> ZeroHash, link |-> <<>>, alg |-> <<1>>, wk |-> Zeros(e.wrap)]>> ELSE <<>>]>>,
             node |-> <<>>, enc |-> <<EncNodeV(node)>>, tag |-> <<Zeros(16)>>]
ManifestPacketLen(c, k, total) ==
    Len(EncPacket([co |-> [name |-> NameOf(Schema(c, TRUE), MaxId), exp |-> c.mexp, pt |-> <<3>>,
                           pl |-> <<EncManifest(BigManifest(c, BigNode(c, k, total, <<>>), FALSE))>>, fc |-> <<>>], val |-> NoVal]))
RootManifestLen(c, total) ==
    LET ncs == IF TwoGroups(c) THEN <<[id |-> <<1, 0>>, s |-> Schema(c, TRUE)], [id |-> <<1, 0>>, s |-> Schema(c, FALSE)]>>
               ELSE <<[id |-> <<1, 0>>, s |-> Schema(c, TRUE)]>>
    IN Len(EncManifest(BigManifest(c, BigNode(c, 1, total, ncs), TRUE)))
\* such a configuration must not be refused
Feasible(c, total) ==
    /\ PayloadSize(c) >= 1
    /\ ManifestPacketLen(c, 3, total) <= c.maxp
    /\ RootManifestLen(c, total) <= c.maxp
    /\ c.deg # 1

---------------------------------------------------------------------------
\* The stored packets, decoded
NoNode == [nd |-> <<>>, hgs |-> <<>>, pad |-> <<>>]
NodeOfPayload(pl, pt) ==
    IF GManifestB(pl) # 2 THEN [ok |-> FALSE, ctx |-> <<>>, node |-> NoNode]
    ELSE LET m == DManifestB(pl)
         IN IF m.node # <<>> THEN [ok |-> TRUE, ctx |-> <<>>, node |-> m.node[1]]
            ELSE IF pt = <<>> \/ GNodeB(pt[1]) # 2 THEN [ok |-> FALSE, ctx |-> <<>>, node |-> NoNode]
            ELSE [ok |-> TRUE, ctx |-> m.ctx, node |-> DNodeB(pt[1])]
\* pointers: [h, nc: opt Num, ssid: opt Num, g, j] in order
PtrsOf(n) == Cat([g \in DOMAIN n.hgs |->
                    LET gd == n.hgs[g].gd
                    IN [j \in DOMAIN n.hgs[g].ptrs |->
                          [h |-> n.hgs[g].ptrs[j].v, a |-> n.hgs[g].ptrs[j].a, g |-> g, j |-> j,
                           nc |-> IF gd = <<>> THEN <<>> ELSE gd[1].nc, ssid |-> IF gd = <<>> THEN <<>> ELSE gd[1].ssid]]])
NoCO == [name |-> <<>>, exp |-> <<>>, pt |-> <<>>, pl |-> <<>>, fc |-> <<>>]
Obj(e) ==
    LET bad == [ok |-> FALSE, k |-> "bad", co |-> NoCO, val |-> <<>>, node |-> NoNode, ctx |-> <<>>, ptrs |-> <<>>, len |-> Len(e.b), h |-> e.h]
    IN IF GPacket(e.b) # 2 THEN bad
       ELSE LET p == TLCEval(DPacket(e.b))
            IN IF p.co.pt = <<0>> /\ p.co.pl # <<>>
               THEN [bad EXCEPT !.ok = TRUE, !.k = "data", !.co = p.co, !.val = p.val]
               ELSE IF p.co.pt = <<3>> /\ p.co.pl # <<>>
               THEN LET m == TLCEval(NodeOfPayload(p.co.pl[1], e.pt))
                    IN [ok |-> m.ok, k |-> IF m.ok THEN "man" ELSE "bad", co |-> p.co, val |-> p.val, node |-> m.node, ctx |-> m.ctx,
                        ptrs |-> PtrsOf(m.node), len |-> Len(e.b), h |-> e.h]
               ELSE bad
Objs(ev) == TLCEval([i \in DOMAIN ev |-> TLCEval(Obj(ev[i]))])

\* index of the first event with hash h, 0 if none
FirstIdx(o) == TLCEval(FoldLeft(LAMBDA f, i : IF o[i].h \in DOMAIN f THEN f ELSE f @@ (o[i].h :> i), <<>>, [i \in DOMAIN o |-> i]))
Idx(f, h) == IF h \in DOMAIN f THEN f[h] ELSE 0
\* the events that the pointers of each event lead to
Kids(o) == LET f == FirstIdx(o)
           IN TLCEval([i \in DOMAIN o |-> TLCEval([k \in DOMAIN o[i].ptrs |-> Idx(f, o[i].ptrs[k].h)])])

\* merging the levels of two subtrees
MaxI(a, b) == IF a > b THEN a ELSE b
Merge(x, y) == [l \in 1..MaxI(Len(x), Len(y)) |-> (IF l <= Len(x) THEN x[l] ELSE <<>>) \o (IF l <= Len(y) THEN y[l] ELSE <<>>)]
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

\* per event: the data events below it in pre-order, their bytes, and per level the pointer counts of the manifests.
\* Stored in order, so what an event points to has been computed (if it was stored before it).
Empty == [data |-> <<>>, bytes |-> 0, lv |-> <<>>, count |-> 0]
Below(o, kids) ==
    FoldLeft(LAMBDA acc, i :
        TLCEval(Append(acc,
          IF o[i].k = "data" THEN [data |-> <<i>>, bytes |-> Len(o[i].co.pl[1]), lv |-> <<>>, count |-> 1]
          ELSE LET sub(k) == IF kids[i][k] \in 1..(i-1) THEN acc[kids[i][k]] ELSE Empty
                   all == FoldLeft(LAMBDA a, k : TLCEval([data |-> a.data \o sub(k).data, bytes |-> a.bytes + sub(k).bytes,
                                                          lv |-> Merge(a.lv, sub(k).lv), count |-> a.count + sub(k).count]),
                                   Empty, [k \in DOMAIN kids[i] |-> k])
               IN [all EXCEPT !.lv = <<<<Len(kids[i])>>>> \o all.lv, !.count = @ + 1])),
      <<>>, [i \in DOMAIN o |-> i])

Manifests(o) == {i \in DOMAIN o : o[i].k = "man"}
DataSeq(o) == SelectSeq([i \in DOMAIN o |-> i], LAMBDA i : o[i].k = "data")
=============================================================================
