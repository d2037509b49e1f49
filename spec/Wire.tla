-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The CCNx packet format (the part ccnpy supports) and the FLIC manifest   *)
(* format, as operators on byte sequences.                                  *)
(*                                                                          *)
(*   Enc*   abstract value -> bytes              (the canonical encoding)   *)
(*   G*     bytes -> 0 malformed / 1 loose / 2 well formed                  *)
(*   D*     bytes -> abstract value              (only if the grade is 2)   *)
(*                                                                          *)
(* "Malformed" must be rejected by a parser, "well formed" must be accepted *)
(* with the value D gives; the specification makes no claim for "loose".    *)
(*                                                                          *)
(* Optional fields are sequences of length 0 or 1. Numbers are their        *)
(* shortest big-endian bytes (<<0>> for 0), so 64-bit numbers fit in TLC.   *)
(* An element is [t, lo, hi]: its value is b[lo..hi].                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

Cat(ss) == FlattenSeq(ss)
MinOf(S) == IF S = {} THEN 2 ELSE Min(S)
Opt(o, Op(_)) == IF o = <<>> THEN <<>> ELSE Op(o[1])

U16(b, i) == b[i] * 256 + b[i+1]
TLV(t, v) == <<t \div 256, t % 256, Len(v) \div 256, Len(v) % 256>> \o v

---------------------------------------------------------------------------
\* Numbers
RECURSIVE StripZeros(_)
StripZeros(v) == IF Len(v) > 1 /\ v[1] = 0 THEN StripZeros(Tail(v)) ELSE v
Zeros(n) == [i \in 1..n |-> 0]
PadTo(v, n) == IF Len(v) >= n THEN v ELSE Zeros(n - Len(v)) \o v
NumV(n) == IF Len(n) <= 4 THEN n ELSE PadTo(n, 8)         \* variable length integer
Num64(n) == PadTo(n, 8)
GNum(v) == IF Len(v) \in 1..8 /\ v = NumV(StripZeros(v)) THEN 2 ELSE 1
DNum(v) == StripZeros(v)
\* to and from TLC integers (below 2^31)
RECURSIVE NumToInt(_)
NumToInt(n) == IF n = <<>> THEN 0 ELSE NumToInt(SubSeq(n, 1, Len(n) - 1)) * 256 + n[Len(n)]
RECURSIVE IntToNum(_)
IntToNum(i) == IF i < 256 THEN <<i>> ELSE IntToNum(i \div 256) \o <<i % 256>>

---------------------------------------------------------------------------
\* TLV sequences
Bad == [t |-> 70000, lo |-> 1, hi |-> 0]
RECURSIVE ElemsR(_,_,_,_)
ElemsR(b, lo, hi, acc) ==
    IF lo > hi THEN acc
    ELSE IF lo + 3 > hi THEN Append(acc, Bad)
    ELSE LET n == U16(b, lo + 2)
         IN IF lo + 3 + n > hi THEN Append(acc, Bad)
            ELSE ElemsR(b, TLCEval(lo + 4 + n), hi, TLCEval(Append(acc, [t |-> U16(b, lo), lo |-> lo + 4, hi |-> lo + 3 + n])))
Elems(b, lo, hi) == TLCEval(ElemsR(b, lo, hi, <<>>))
Whole(es) == es = <<>> \/ es[Len(es)] # Bad

V(b, e) == SubSeq(b, e.lo, e.hi)
LenE(e) == e.hi - e.lo + 1
Of(es, t) == SelectSeq(es, LAMBDA e : e.t = t)
Cnt(es, t) == Len(Of(es, t))
One(es, t) == Of(es, t)[1]
Types(es) == {es[i].t : i \in DOMAIN es}
\* es has its elements in the order of the types in `order` (others anywhere)
Pos(order, t) == CHOOSE i \in DOMAIN order : order[i] = t
InOrder(es, order) ==
    LET known == SelectSeq(es, LAMBDA e : \E i \in DOMAIN order : order[i] = e.t)
    IN \A i \in 1..Len(known)-1 : Pos(order, known[i].t) <= Pos(order, known[i+1].t)
\* grade of the elements of type t with grader G(b, lo, hi)
GOf(b, es, t, G(_,_,_)) == MinOf({G(b, es[i].lo, es[i].hi) : i \in {j \in DOMAIN es : es[j].t = t}})
\* optional value of the element of type t
DOf(b, es, t, D(_,_,_)) == IF Cnt(es, t) = 0 THEN <<>> ELSE LET e == One(es, t) IN <<D(b, e.lo, e.hi)>>
\* structural grade: whole elements, nothing outside `known` (if strict), at most one of each in `single`
GStruct(es, known, single, strict, order) ==
    IF ~Whole(es) THEN 0
    ELSE IF strict /\ ~(Types(es) \subseteq known) THEN 0
    ELSE IF \E t \in single : Cnt(es, t) > 1 THEN 0
    ELSE IF InOrder(es, order) THEN 2 ELSE 1

\* leaf graders and values in (b, lo, hi) form
GNumL(b, lo, hi) == GNum(SubSeq(b, lo, hi))
DNumL(b, lo, hi) == DNum(SubSeq(b, lo, hi))
G64L(b, lo, hi) == IF hi - lo + 1 = 8 THEN 2 ELSE 1
\* a time in milliseconds, until the year 9999 (later ones are loose: the API gives dates)
GTimeL(b, lo, hi) == IF hi - lo + 1 = 8 /\ b[lo] = 0 /\ b[lo+1] = 0 /\ b[lo+2] < 230 THEN 2 ELSE 1
\* a hash function number that the API can tell
GHashAlgL(b, lo, hi) == IF hi = lo /\ b[lo] \in {1, 2} THEN 2 ELSE 1
GAnyL(b, lo, hi) == 2
DRawL(b, lo, hi) == SubSeq(b, lo, hi)

---------------------------------------------------------------------------
\* Names, hashes, links
EncName(n) == TLV(0, Cat([i \in DOMAIN n |-> TLV(n[i].t, n[i].v)]))
GName(b, lo, hi) == IF Whole(Elems(b, lo, hi)) THEN 2 ELSE 0
DName(b, lo, hi) == LET es == Elems(b, lo, hi)
                    IN [i \in DOMAIN es |-> [t |-> es[i].t, v |-> V(b, es[i])]]

EncHash(h) == TLV(h.a, h.v)
\* a TLV that holds one hash value
GHashIn(b, lo, hi) == LET es == Elems(b, lo, hi)
                      IN IF es = <<>> \/ es[1] = Bad THEN 0 ELSE IF Len(es) = 1 THEN 2 ELSE 1
DHashIn(b, lo, hi) == LET e == Elems(b, lo, hi)[1] IN [a |-> e.t, v |-> V(b, e)]

EncLink(l) == Cat(<< Opt(l.name, EncName),
                     Opt(l.keyid, LAMBDA h : TLV(2, EncHash(h))),
                     Opt(l.digest, LAMBDA h : TLV(3, EncHash(h))) >>)
GLink(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        g == GStruct(es, {0, 2, 3}, {0, 2, 3}, TRUE, <<0, 2, 3>>)
    IN IF g = 0 THEN 0
       ELSE Min({g, GOf(b, es, 0, GName), GOf(b, es, 2, GHashIn), GOf(b, es, 3, GHashIn)})
DLink(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
    IN [name |-> DOf(b, es, 0, DName), keyid |-> DOf(b, es, 2, DHashIn), digest |-> DOf(b, es, 3, DHashIn)]

---------------------------------------------------------------------------
\* Content object:
\* [name: opt Name, exp: opt Num, pt: opt 0..3, pl: opt bytes, fc: opt Num]
EncCO(c) == TLV(2, Cat(<< Opt(c.name, EncName),
                          Opt(c.exp, LAMBDA n : TLV(6, Num64(n))),
                          Opt(c.pt, LAMBDA n : TLV(5, <<n>>)),
                          Opt(c.pl, LAMBDA p : TLV(1, p)),
                          Opt(c.fc, LAMBDA n : TLV(7, NumV(n))) >>))
GPType(b, lo, hi) == IF hi = lo /\ b[lo] <= 3 THEN 2 ELSE 1
GCO(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        g == GStruct(es, {0, 1, 5, 6, 7}, {0, 1, 5, 6, 7}, TRUE, <<0, 6, 5, 1, 7>>)
    IN IF g = 0 THEN 0
       ELSE Min({g, GOf(b, es, 0, GName), GOf(b, es, 6, GTimeL), GOf(b, es, 5, GPType), GOf(b, es, 7, GNumL)})
DPType(b, lo, hi) == b[lo]
DCO(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
    IN [name |-> DOf(b, es, 0, DName), exp |-> DOf(b, es, 6, DNumL), pt |-> DOf(b, es, 5, DPType),
        pl |-> DOf(b, es, 1, DRawL), fc |-> DOf(b, es, 7, DNumL)]

---------------------------------------------------------------------------
\* Validation: [k: "crc" | "rsa", keyid: opt Hash, time: opt Num, sig: bytes]
EncAlg(a) == IF a.k = "crc" THEN TLV(3, TLV(2, <<>>))
             ELSE TLV(3, TLV(4, TLV(9, EncHash(a.keyid[1])) \o TLV(15, Num64(a.time[1]))))
EncVal(a) == EncAlg(a) \o TLV(4, a.sig)
GRsa(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
    IN IF ~Whole(es) \/ Cnt(es, 9) = 0 THEN 0
       ELSE IF Types(es) # {9, 15} \/ Len(es) # 2 \/ es[1].t # 9 THEN Min({1, GOf(b, es, 9, GHashIn)})
       ELSE Min({GOf(b, es, 9, GHashIn), GOf(b, es, 15, GTimeL)})
GAlg(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        more == IF Len(es) = 1 THEN 2 ELSE 1
    IN IF es = <<>> \/ es[1] = Bad THEN 0
       ELSE IF es[1].t = 2 THEN (IF LenE(es[1]) = 0 THEN more ELSE 0)
       ELSE IF es[1].t = 4 THEN Min({more, GRsa(b, es[1].lo, es[1].hi)})
       ELSE 0
DAlg(b, lo, hi) ==
    LET e == Elems(b, lo, hi)[1]
        rs == Elems(b, e.lo, e.hi)
    IN IF e.t = 2 THEN [k |-> "crc", keyid |-> <<>>, time |-> <<>>]
       ELSE [k |-> "rsa", keyid |-> DOf(b, rs, 9, DHashIn), time |-> DOf(b, rs, 15, DNumL)]

---------------------------------------------------------------------------
\* Packet: [co, val: opt]
EncMsg(p) == EncCO(p.co) \o Opt(p.val, EncVal)
Header(len) == <<1, 1, len \div 256, len % 256, 0, 0, 0, 8>>
EncPacket(p) == LET m == EncMsg(p) IN Header(8 + Len(m)) \o m

PacketElems(b) == Elems(b, b[8] + 1, Len(b))
GPacket(b) ==
    IF Len(b) < 8 THEN 0
    ELSE IF b[1] # 1 \/ U16(b, 3) # Len(b) \/ b[8] < 8 THEN 0
    ELSE LET es == PacketElems(b)
             g == GStruct(es, {1, 2, 3, 4}, {1, 2, 3, 4}, TRUE, <<2, 3, 4>>)
         IN IF g = 0 THEN 0
            ELSE IF Cnt(es, 1) + Cnt(es, 2) # 1 \/ Cnt(es, 3) # Cnt(es, 4) THEN 0
            ELSE IF ~InOrder(es, <<3, 4>>) THEN 0
            ELSE IF Cnt(es, 1) = 1 THEN 1
            ELSE Min({g, GOf(b, es, 2, GCO), GOf(b, es, 3, GAlg),
                      IF b[8] = 8 /\ b[2] = 1 /\ b[5] = 0 /\ b[6] = 0 /\ b[7] = 0 THEN 2 ELSE 1})
DPacket(b) ==
    LET es == PacketElems(b)
        c == One(es, 2)
    IN [co |-> DCO(b, c.lo, c.hi),
        val |-> IF Cnt(es, 3) = 0 THEN <<>>
                ELSE LET a == One(es, 3)
                         d == DAlg(b, a.lo, a.hi)
                     IN <<[k |-> d.k, keyid |-> d.keyid, time |-> d.time, sig |-> V(b, One(es, 4))]>>]
\* the byte ranges the object hash, the signature and the payload cover
MsgRange(b) == <<b[8] + 1, Len(b)>>
PayloadRange(b) ==
    LET es == PacketElems(b)
        c == One(es, 2)
        p == One(Elems(b, c.lo, c.hi), 1)
    IN <<p.lo, p.hi>>

---------------------------------------------------------------------------
\* FLIC: locators, name constructors
EncLocs(ls) == TLV(6, Cat([i \in DOMAIN ls |-> TLV(13, EncLink(ls[i]))]))
GLocs(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
    IN IF ~Whole(es) \/ es = <<>> \/ Types(es) # {13} THEN 0
       ELSE MinOf({IF Cnt(Elems(b, es[i].lo, es[i].hi), 0) = 0 THEN 0 ELSE GLink(b, es[i].lo, es[i].hi) : i \in DOMAIN es})
DLocs(b, lo, hi) == LET es == Elems(b, lo, hi) IN [i \in DOMAIN es |-> DLink(b, es[i].lo, es[i].hi)]

\* schema: [k: "hash" | "prefix" | "seg", name: opt Name, sfx: opt Num, loc: opt Locs, flags: opt bytes]
SchemaType(k) == CASE k = "hash" -> 16 [] k = "prefix" -> 17 [] k = "seg" -> 18
EncSchema(s) == TLV(SchemaType(s.k), Cat(<< Opt(s.name, EncName),
                                            Opt(s.sfx, LAMBDA n : TLV(2, PadTo(n, 2))),
                                            Opt(s.loc, EncLocs),
                                            Opt(s.flags, LAMBDA f : TLV(1, f)) >>))
SchemaSingles(t) == CASE t = 16 -> {1, 6} [] t = 17 -> {0, 1, 6} [] t = 18 -> {0, 1, 2, 6}
GSfx(b, lo, hi) == IF hi = lo + 1 THEN 2 ELSE 1
GSchema(b, t, lo, hi) ==
    LET es == Elems(b, lo, hi)
        g == GStruct(es, {}, SchemaSingles(t), FALSE, <<0, 2, 6, 1>>)
        S == SchemaSingles(t)
        G1(u, Gr(_,_,_)) == IF u \in S THEN GOf(b, es, u, Gr) ELSE 2
    IN IF g = 0 THEN 0
       ELSE Min({g, G1(0, GName), G1(2, GSfx), G1(6, GLocs),
                 IF t # 16 /\ Cnt(es, 0) = 0 THEN 1 ELSE 2, IF t = 18 /\ Cnt(es, 2) = 0 THEN 1 ELSE 2})
DSchema(b, t, lo, hi) ==
    LET es == Elems(b, lo, hi)
        S == SchemaSingles(t)
        D1(u, Dr(_,_,_)) == IF u \in S THEN DOf(b, es, u, Dr) ELSE <<>>
    IN [k |-> CASE t = 16 -> "hash" [] t = 17 -> "prefix" [] t = 18 -> "seg",
        name |-> D1(0, DName), sfx |-> D1(2, DNumL), loc |-> D1(6, DLocs), flags |-> D1(1, DRawL)]

\* NcDef: [id: Num, s: schema]
EncNcDef(d) == TLV(4, TLV(5, NumV(d.id)) \o EncSchema(d.s))
GNcDef(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        ss == SelectSeq(es, LAMBDA e : e.t # 5)
        g == GStruct(es, {5, 16, 17, 18}, {5}, TRUE, <<5, 16, 17, 18>>)
    IN IF g = 0 \/ Len(ss) > 1 THEN 0
       ELSE IF Len(ss) = 0 \/ Cnt(es, 5) = 0 THEN 1
       ELSE Min({g, GOf(b, es, 5, GNumL), GSchema(b, ss[1].t, ss[1].lo, ss[1].hi)})
DNcDef(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        s == SelectSeq(es, LAMBDA e : e.t # 5)[1]
    IN [id |-> DOf(b, es, 5, DNumL)[1], s |-> DSchema(b, s.t, s.lo, s.hi)]

---------------------------------------------------------------------------
\* NodeData: [sts: opt Num, std: opt Hash, loc: opt Locs, ncs: Seq(NcDef), vend: Seq([pen: 3 bytes, pl])]
EncNodeData(d) == TLV(0, Cat(<< Opt(d.sts, LAMBDA n : TLV(2, NumV(n))),
                                Opt(d.std, LAMBDA h : TLV(3, EncHash(h))),
                                Opt(d.loc, EncLocs),
                                Cat([i \in DOMAIN d.ncs |-> EncNcDef(d.ncs[i])]),
                                Cat([i \in DOMAIN d.vend |-> TLV(4095, d.vend[i].pen \o d.vend[i].pl)]) >>))
GVendor(b, lo, hi) == IF hi - lo + 1 < 3 THEN 0 ELSE 2
DVendor(b, lo, hi) == [pen |-> SubSeq(b, lo, lo + 2), pl |-> SubSeq(b, lo + 3, hi)]
GNodeData(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        g == GStruct(es, {2, 3, 4, 6, 4095}, {2, 3, 6}, TRUE, <<2, 3, 6, 4, 4095>>)
    IN IF g = 0 THEN 0
       ELSE Min({g, GOf(b, es, 2, GNumL), GOf(b, es, 3, GHashIn), GOf(b, es, 6, GLocs),
                 GOf(b, es, 4, GNcDef), GOf(b, es, 4095, GVendor)})
DNodeData(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        nd == Of(es, 4)
        vd == Of(es, 4095)
    IN [sts |-> DOf(b, es, 2, DNumL), std |-> DOf(b, es, 3, DHashIn), loc |-> DOf(b, es, 6, DLocs),
        ncs |-> [i \in DOMAIN nd |-> DNcDef(b, nd[i].lo, nd[i].hi)],
        vend |-> [i \in DOMAIN vd |-> DVendor(b, vd[i].lo, vd[i].hi)]]

\* GroupData: [sts, std, ls, ld, nc, ssid : opt]
EncGroupData(g) == TLV(11, Cat(<< Opt(g.sts, LAMBDA n : TLV(2, NumV(n))),
                                  Opt(g.std, LAMBDA h : TLV(3, EncHash(h))),
                                  Opt(g.ls, LAMBDA n : TLV(0, NumV(n))),
                                  Opt(g.ld, LAMBDA h : TLV(1, EncHash(h))),
                                  Opt(g.nc, LAMBDA n : TLV(5, NumV(n))),
                                  Opt(g.ssid, LAMBDA n : TLV(4, NumV(n))) >>))
GGroupData(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        g == GStruct(es, {}, {0, 1, 2, 3, 4, 5}, FALSE, <<2, 3, 0, 1, 5, 4>>)
    IN IF g = 0 THEN 0
       ELSE Min({g, GOf(b, es, 2, GNumL), GOf(b, es, 3, GHashIn), GOf(b, es, 0, GNumL),
                 GOf(b, es, 1, GHashIn), GOf(b, es, 5, GNumL), GOf(b, es, 4, GNumL)})
DGroupData(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
    IN [sts |-> DOf(b, es, 2, DNumL), std |-> DOf(b, es, 3, DHashIn), ls |-> DOf(b, es, 0, DNumL),
        ld |-> DOf(b, es, 1, DHashIn), nc |-> DOf(b, es, 5, DNumL), ssid |-> DOf(b, es, 4, DNumL)]

\* HashGroup: [gd: opt GroupData, ptrs: Seq(Hash)]
EncHashGroup(h) == TLV(1, Opt(h.gd, EncGroupData) \o TLV(7, Cat([i \in DOMAIN h.ptrs |-> EncHash(h.ptrs[i])])))
GPtrs(b, lo, hi) == IF Whole(Elems(b, lo, hi)) THEN 2 ELSE 0
DPtrs(b, lo, hi) == LET es == Elems(b, lo, hi) IN [i \in DOMAIN es |-> [a |-> es[i].t, v |-> V(b, es[i])]]
GHashGroup(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        g == GStruct(es, {}, {7, 11}, FALSE, <<11, 7>>)
    IN IF g = 0 THEN 0
       ELSE Min({g, GOf(b, es, 11, GGroupData), GOf(b, es, 7, GPtrs), IF Cnt(es, 7) = 0 THEN 1 ELSE 2})
DHashGroup(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
    IN [gd |-> DOf(b, es, 11, DGroupData), ptrs |-> DOf(b, es, 7, DPtrs)[1]]

\* Node: [nd: opt NodeData, hgs: Seq(HashGroup), pad: opt length]
EncNodeV(n) == Cat(<< Opt(n.nd, EncNodeData),
                      Cat([i \in DOMAIN n.hgs |-> EncHashGroup(n.hgs[i])]),
                      Opt(n.pad, LAMBDA k : TLV(4094, Zeros(k))) >>)
EncNode(n) == TLV(1, EncNodeV(n))
GPad(b, lo, hi) == IF \A i \in lo..hi : b[i] = 0 THEN 2 ELSE 1
GNode(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        g == GStruct(es, {0, 1, 4094}, {0}, TRUE, <<0, 1, 4094>>)
    IN IF g = 0 \/ Cnt(es, 1) = 0 THEN 0
       ELSE Min({g, GOf(b, es, 0, GNodeData), GOf(b, es, 1, GHashGroup), GOf(b, es, 4094, GPad),
                 IF Cnt(es, 4094) > 1 THEN 1 ELSE 2})
DNode(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        hs == Of(es, 1)
    IN [nd |-> DOf(b, es, 0, DNodeData),
        hgs |-> [i \in DOMAIN hs |-> DHashGroup(b, hs[i].lo, hs[i].hi)],
        pad |-> IF Cnt(es, 4094) = 0 THEN <<>> ELSE <<LenE(One(es, 4094))>>]

---------------------------------------------------------------------------
\* Security context: [k: "aead" | "oaep", kn: Num, nonce: bytes, mode: Num,
\*                    kdf: opt [alg: Num, info: opt bytes],
\*                    wrap: opt [keyid: Hash, link: opt Link, alg: Num, wk: bytes]]
EncKdf(k) == TLV(5, TLV(6, NumV(k.alg)) \o Opt(k.info, LAMBDA i : TLV(7, i)))
EncAead(c) == Cat(<<TLV(0, NumV(c.kn)), TLV(1, c.nonce), TLV(2, NumV(c.mode)), Opt(c.kdf, EncKdf)>>)
EncWrap(w) == Cat(<<TLV(9, EncHash(w.keyid)), Opt(w.link, LAMBDA l : TLV(14, EncLink(l))),
                    TLV(3, NumV(w.alg)), TLV(4, w.wk)>>)
EncCtx(c) == TLV(0, TLV(IF c.k = "aead" THEN 0 ELSE 1, EncAead(c) \o Opt(c.wrap, EncWrap)))
GKdf(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        g == GStruct(es, {}, {6, 7}, FALSE, <<6, 7>>)
    IN IF g = 0 THEN 0 ELSE IF Cnt(es, 6) = 0 THEN 1 ELSE Min({g, GOf(b, es, 6, GNumL)})
DKdf(b, lo, hi) == LET es == Elems(b, lo, hi) IN [alg |-> DOf(b, es, 6, DNumL)[1], info |-> DOf(b, es, 7, DRawL)]
GMode(b, lo, hi) == IF hi = lo /\ b[lo] \in 1..4 THEN 2 ELSE 1
GAeadData(b, es, oaep) ==
    LET single == IF oaep THEN {0, 1, 2, 3, 4, 5, 9, 14} ELSE {0, 1, 2, 5}
        g == GStruct(es, {}, single, FALSE, <<0, 1, 2, 5, 9, 14, 3, 4>>)
        nw == Cnt(es, 9) + Cnt(es, 3) + Cnt(es, 4)
    IN IF g = 0 THEN 0
       ELSE IF Cnt(es, 0) = 0 \/ Cnt(es, 1) = 0 \/ Cnt(es, 2) = 0 THEN 1
       ELSE Min({g, GOf(b, es, 0, GNumL), GOf(b, es, 2, GMode), GOf(b, es, 5, GKdf),
                 IF oaep THEN Min({GOf(b, es, 9, GHashIn), GOf(b, es, 14, GLink), GOf(b, es, 3, GHashAlgL),
                                   IF nw \in {0, 3} /\ (nw = 3 \/ Cnt(es, 14) = 0) THEN 2 ELSE 1})
                 ELSE 2})
GCtx(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
    IN IF es = <<>> \/ es[1] = Bad \/ es[1].t \notin {0, 1} THEN 0
       ELSE Min({IF Len(es) = 1 THEN 2 ELSE 1, GAeadData(b, Elems(b, es[1].lo, es[1].hi), es[1].t = 1)})
DCtx(b, lo, hi) ==
    LET e == Elems(b, lo, hi)[1]
        es == Elems(b, e.lo, e.hi)
    IN [k |-> IF e.t = 0 THEN "aead" ELSE "oaep",
        kn |-> DOf(b, es, 0, DNumL)[1], nonce |-> DOf(b, es, 1, DRawL)[1], mode |-> DOf(b, es, 2, DNumL)[1],
        kdf |-> DOf(b, es, 5, DKdf),
        wrap |-> IF e.t = 0 \/ Cnt(es, 4) = 0 THEN <<>>
                 ELSE <<[keyid |-> DOf(b, es, 9, DHashIn)[1], link |-> DOf(b, es, 14, DLink),
                         alg |-> DOf(b, es, 3, DNumL)[1], wk |-> DOf(b, es, 4, DRawL)[1]]>>]

\* Manifest: [ctx: opt Ctx, node: opt Node, enc: opt bytes, tag: opt bytes]
EncManifest(m) == Cat(<<Opt(m.ctx, EncCtx), Opt(m.node, EncNode),
                        Opt(m.enc, LAMBDA x : TLV(2, x)), Opt(m.tag, LAMBDA x : TLV(3, x))>>)
GManifest(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
        g == GStruct(es, {0, 1, 2, 3}, {0, 1, 2, 3}, TRUE, <<0, 1, 2, 3>>)
    IN IF g = 0 \/ Cnt(es, 1) + Cnt(es, 2) # 1 THEN 0
       ELSE Min({g, GOf(b, es, 0, GCtx), GOf(b, es, 1, GNode),
                 IF Cnt(es, 0) = Cnt(es, 2) /\ Cnt(es, 2) = Cnt(es, 3) THEN 2 ELSE 1})
DManifest(b, lo, hi) ==
    LET es == Elems(b, lo, hi)
    IN [ctx |-> DOf(b, es, 0, DCtx), node |-> DOf(b, es, 1, DNode),
        enc |-> DOf(b, es, 2, DRawL), tag |-> DOf(b, es, 3, DRawL)]

GManifestB(b) == GManifest(b, 1, Len(b))
DManifestB(b) == DManifest(b, 1, Len(b))
GNodeB(b) == GNode(b, 1, Len(b))
DNodeB(b) == DNode(b, 1, Len(b))

---------------------------------------------------------------------------
\* Walking the pointers of a node: [nc: Num, seg: opt Int, h: Hash] in order
WalkGroup(h) == [i \in DOMAIN h.ptrs |->
                    [nc |-> h.gd[1].nc[1],
                     seg |-> IF h.gd[1].ssid = <<>> THEN <<>> ELSE <<NumToInt(h.gd[1].ssid[1]) + i - 1>>,
                     h |-> h.ptrs[i]]]
Walkable(n) == \A i \in DOMAIN n.hgs : n.hgs[i].gd # <<>> /\ n.hgs[i].gd[1].nc # <<>>
Walk(n) == Cat([i \in DOMAIN n.hgs |-> WalkGroup(n.hgs[i])])
=============================================================================
