------------------------------ MODULE NameCheck ------------------------------
(* Judges operations on names (P21) and the behaviour of values (P20).          *)
(*  names:  [t: "names", ops, obs: Seq([ok, comps, bytes, texts: Seq(opt bytes), uri]), eqs: Seq([i, j, ok, eq])] *)
(*  refuse: [t: "refuse", ok]     a text that is not a CCNx URI                 *)
(*  values: [t: "values", objs: Seq([k, abs, bytes]), ops: Seq([op: "ser", i, bytes] |           *)
(*           [op: "eq", i, j, ok, eq, ne] | [op: "hash", i, j, same] |    *)
(*           [op: "iter", i, n, events])]                                                        *)
EXTENDS Wire, Judge
N == INSTANCE Names WITH MaxOps <- 0, heap <- <<>>
It == INSTANCE Iterators WITH Size <- 0, Its <- 0, Most <- 0, OwnPosition <- TRUE, pos <- <<>>, events <- <<>>

\* is v the UTF-8 form of some text: no byte of a malformed sequence (overlong and surrogates do not occur here)
NameClauses(r) ==
    LET h == TLCEval(N!Heap(r.ops))
        n == Len(h)
        good == {i \in 1..n : r.obs[i].ok}
    IN << <<"made", \A i \in 1..n : r.obs[i].ok>>,
          <<"components", \A i \in good : r.obs[i].comps = h[i]>>,
          <<"wire", \A i \in good : r.obs[i].bytes = EncName(h[i])>>,
          <<"text", \A i \in good : \A k \in DOMAIN r.obs[i].texts :
                       (k <= Len(h[i]) /\ r.obs[i].texts[k] # <<>>) => r.obs[i].texts[k][1] = h[i][k].v>>,
          <<"uri-text", \A i \in good : r.obs[i].uri => \A k \in DOMAIN r.obs[i].texts : r.obs[i].texts[k] # <<>>>>,
          <<"equality", \A x \in DOMAIN r.eqs : r.eqs[x].ok /\ r.eqs[x].eq = (h[r.eqs[x].i] = h[r.eqs[x].j])>> >>

FieldType(c) == CASE c \in {"LeafSize", "KeyNumber"} -> 0
                  [] c \in {"ProtocolFlags", "LeafDigest", "Payload", "Nonce"} -> 1
                  [] c \in {"SubtreeSize", "EncryptedNode", "AeadMode"} -> 2
                  [] c \in {"SubtreeDigest", "AuthTag", "HashAlg"} -> 3
                  [] c \in {"StartSegmentId", "ValidationPayload", "WrappedKey"} -> 4
                  [] c = "NcId" -> 5
                  [] c \in {"KdfAlg", "ExpiryTime"} -> 6
                  [] c = "KdfInfo" -> 7
                  [] c = "KeyId" -> 9
                  [] c = "SignatureTime" -> 15
Enc(o) == CASE o.k = "name" -> EncName(o.abs)
            [] o.k = "tlv" -> TLV(o.abs.t, o.abs.v)
            [] o.k = "hash" -> EncHash(o.abs)
            [] o.k = "link" -> EncLink(o.abs)
            [] o.k = "ptrs" -> TLV(7, Cat([i \in DOMAIN o.abs |-> EncHash(o.abs[i])]))
            [] o.k = "payload" -> TLV(1, o.abs)
            [] o.k = "packet" -> EncPacket(o.abs)
            [] o.k = "manifest" -> EncManifest(o.abs)
            [] o.k = "num" -> TLV(FieldType(o.abs.c), NumV(o.abs.v))
            [] o.k = "octets" -> TLV(FieldType(o.abs.c), o.abs.v)
            [] o.k = "digest" -> TLV(FieldType(o.abs.c), EncHash(o.abs.v))
            [] o.k = "time" -> TLV(FieldType(o.abs.c), Num64(o.abs.v))
            [] o.k = "co" -> EncCO(o.abs)
            [] o.k = "alg" -> EncAlg(o.abs)
            [] o.k = "ptype" -> TLV(5, <<o.abs>>)
            [] o.k = "fchunk" -> TLV(7, NumV(o.abs))
            [] o.k = "locs" -> EncLocs(o.abs)
            [] o.k = "schema" -> EncSchema(o.abs)
            [] o.k = "ncdef" -> EncNcDef(o.abs)
            [] o.k = "vendor" -> TLV(4095, o.abs.pen \o o.abs.pl)
            [] o.k = "suffix" -> TLV(2, <<o.abs \div 256, o.abs % 256>>)
            [] o.k = "nodedata" -> EncNodeData(o.abs)
            [] o.k = "groupdata" -> EncGroupData(o.abs)
            [] o.k = "hashgroup" -> EncHashGroup(o.abs)
            [] o.k = "node" -> EncNode(o.abs)
            [] o.k = "ctx" -> EncCtx(o.abs)
            [] o.k = "pad" -> TLV(4094, [i \in 1..o.abs |-> 0])
            [] o.k = "keylink" -> TLV(14, EncLink(o.abs))
            [] o.k = "kdf" -> TLV(5, TLV(6, NumV(o.abs.alg)) \o Opt(o.abs.info, LAMBDA x : TLV(7, x)))
\* fields of different classes may share a type number (in different containers): nothing is said about such a pair
Class(o) == IF o.k \in {"num", "octets", "digest", "time"} THEN <<o.k, o.abs.c>>
            ELSE IF o.k = "payload" THEN <<"octets", "Payload">> ELSE <<o.k, "">>
\* what an iteration over the object gives: the bytes of its wire format, or the values it is made of
ItemsOf(o, w) == CASE o.k = "ptrs" -> [x \in DOMAIN o.abs |-> EncHash(o.abs[x])]
                   [] o.k = "locs" -> [x \in DOMAIN o.abs |-> TLV(13, EncLink(o.abs[x]))]
                   [] OTHER -> [x \in DOMAIN w |-> <<w[x]>>]
ValueClauses(r) ==
    LET w == TLCEval([i \in DOMAIN r.objs |-> Enc(r.objs[i])])
        is(x, o) == r.ops[x].op = o
        cls == TLCEval([i \in DOMAIN r.objs |-> Class(r.objs[i])])
        same(x) == cls[r.ops[x].i] = cls[r.ops[x].j] /\ w[r.ops[x].i] = w[r.ops[x].j]
        field(k) == k \in {"num", "octets", "digest", "time"}
        open(x) == field(cls[r.ops[x].i][1]) /\ field(cls[r.ops[x].j][1]) /\ ~same(x) /\ w[r.ops[x].i] = w[r.ops[x].j]
    IN << <<"first", \A i \in DOMAIN r.objs : r.objs[i].bytes = w[i]>>,
          <<"unchanged", \A x \in DOMAIN r.ops : is(x, "ser") => r.ops[x].bytes = w[r.ops[x].i]>>,
          <<"comparable", \A x \in DOMAIN r.ops : is(x, "eq") => r.ops[x].ok>>,
          <<"equal-iff-same-wire", \A x \in DOMAIN r.ops : is(x, "eq") /\ r.ops[x].ok /\ ~open(x) => r.ops[x].eq = same(x)>>,
          <<"not-equal", \A x \in DOMAIN r.ops : is(x, "eq") /\ r.ops[x].ok => r.ops[x].ne = ~r.ops[x].eq>>,
          <<"hash", \A x \in DOMAIN r.ops : is(x, "hash") /\ same(x) => r.ops[x].same>>,
          <<"iterates", \A x \in DOMAIN r.ops : is(x, "iter") => It!Legal(ItemsOf(r.objs[r.ops[x].i], w[r.ops[x].i]), r.ops[x].n, r.ops[x].events)>> >>

Clauses(r) == CASE r.t = "names" -> NameClauses(r)
                [] r.t = "refuse" -> << <<"refused", ~r.ok>> >>
                [] r.t = "values" -> ValueClauses(r)

VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
