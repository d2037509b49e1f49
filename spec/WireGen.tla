------------------------------- MODULE WireGen -------------------------------
(* Enumerates, exhaustively, small domains of abstract packets and manifests:  *)
(* every presence/absence combination of the optional fields, with boundary    *)
(* values of the numbers.                                                      *)
EXTENDS Wire, Json, IOUtils

A == <<97>>
NameA == <<[t |-> 1, v |-> A]>>
NameB == <<[t |-> 1, v |-> <<104, 105>>], [t |-> 5, v |-> <<255>>]>>
NameC == <<[t |-> 1, v |-> <<>>], [t |-> 16, v |-> <<1, 0>>], [t |-> 4096, v |-> <<0>>]>>
Names == {<<>>, NameA, NameB, NameC}
O(S) == {<<>>} \cup {<<x>> : x \in S}          \* optional
Num3 == {<<0>>, <<255>>, <<1, 0>>, <<255, 255>>, <<1, 0, 0>>, <<1, 0, 0, 0>>, <<255, 255, 255, 255>>, <<1, 0, 0, 0, 0>>,
         <<127, 255, 255, 255, 255, 255, 255, 255>>}
Few == {<<0>>, <<1, 0>>, <<1, 0, 0, 0, 0>>}
Dig(i) == [a |-> 1, v |-> [j \in 1..32 |-> (i * 37 + j * 5) % 256]]
Dig64(i) == [a |-> 2, v |-> [j \in 1..64 |-> (i * 11 + j * 3) % 256]]
Short(i) == [a |-> 1, v |-> <<i>>]

COs == [name : O(Names), exp : O({<<0>>, <<1, 139, 207, 229, 104, 1>>}), pt : O({0, 1, 2, 3}),
        pl : O({<<>>, <<7>>, <<0, 1, 2, 254, 255>>}), fc : O(Few)]
Vals == {<<>>, <<[k |-> "crc", keyid |-> <<>>, time |-> <<>>, sig |-> <<1, 2, 3, 4>>]>>,
         <<[k |-> "rsa", keyid |-> <<Dig(1)>>, time |-> <<<<1, 139, 207, 229, 104, 1>>>>, sig |-> <<9, 8, 7>>]>>}
FcCOs == {[name |-> <<NameA>>, exp |-> <<>>, pt |-> <<0>>, pl |-> <<<<1>>>>, fc |-> <<n>>] : n \in Num3}
Packets == {[co |-> c, val |-> v] : c \in COs, v \in Vals} \cup {[co |-> c, val |-> <<>>] : c \in FcCOs}

Links == [name : {<<NameA>>, <<NameB>>}, keyid : O({Dig(2)}), digest : O({Dig(3), Dig64(1)})]
Link0 == [name |-> <<NameA>>, keyid |-> <<>>, digest |-> <<>>]
Loc == {<<l>> : l \in Links} \cup {<<l, Link0>> : l \in Links}
Loc1 == <<Link0>>
Flags == O({<<>>, <<1, 2>>})
Sch(k, n, s, l, f) == [k |-> k, name |-> n, sfx |-> s, loc |-> l, flags |-> f]
Schemas == {Sch("hash", <<>>, <<>>, <<l>>, f) : l \in Loc, f \in Flags}
      \cup {Sch("prefix", <<n>>, <<>>, l, f) : n \in Names, l \in O({Loc1}), f \in Flags}
      \cup {Sch("seg", <<n>>, <<s>>, l, f) : n \in Names, s \in {<<5>>, <<16>>, <<0>>, <<255, 255>>}, l \in O({Loc1}), f \in Flags}
ND0 == [sts |-> <<>>, std |-> <<>>, loc |-> <<>>, ncs |-> <<>>, vend |-> <<>>]
Def(i, s) == [id |-> i, s |-> s]
S1 == Sch("hash", <<>>, <<>>, <<Loc1>>, <<>>)
S2 == Sch("seg", <<NameA>>, <<<<5>>>>, <<>>, <<<<>>>>)
Vnd(p) == [pen |-> p, pl |-> <<9, 9>>]
NDs == [sts : O(Few), std : O({Dig(4), Short(1)}), loc : O({Loc1}),
        ncs : {<<>>, <<Def(<<0>>, S1)>>, <<Def(<<1, 0>>, S2), Def(<<0>>, S1)>>},
        vend : {<<>>, <<Vnd(<<0, 0, 0>>)>>, <<Vnd(<<255, 255, 255>>), [pen |-> <<0, 0, 1>>, pl |-> <<>>]>>}]
   \cup {[ND0 EXCEPT !.sts = <<n>>] : n \in Num3}
   \cup {[ND0 EXCEPT !.loc = <<l>>] : l \in Loc}
   \cup {[ND0 EXCEPT !.ncs = <<Def(<<1>>, s)>>] : s \in Schemas}
GDs == [sts : O({<<1, 0>>}), std : O({Dig(5)}), ls : O({<<255>>}), ld : O({Dig(6)}), nc : O({<<1>>}), ssid : O({<<0>>})]
GD0 == [sts |-> <<>>, std |-> <<>>, ls |-> <<>>, ld |-> <<>>, nc |-> <<<<2>>>>, ssid |-> <<>>]
GDn == {[GD0 EXCEPT !.sts = <<n>>] : n \in Num3} \cup {[GD0 EXCEPT !.ls = <<n>>] : n \in Num3}
  \cup {[GD0 EXCEPT !.nc = <<n>>] : n \in Num3} \cup {[GD0 EXCEPT !.ssid = <<n>>] : n \in {<<0>>, <<255>>, <<1, 0>>, <<255, 255, 255>>, <<1, 0, 0, 0>>}}
Ptrs == {<<>>, <<Dig(7)>>, <<Dig(8), Dig64(2), Dig(9)>>}
HGs == [gd : O(GDs \cup GDn), ptrs : Ptrs]
HG0 == [gd |-> <<GD0>>, ptrs |-> <<Dig(7)>>]
HGseg == [gd |-> <<[GD0 EXCEPT !.ssid = <<<<254>>>>, !.nc = <<<<1, 0>>>>]>>, ptrs |-> <<Dig(1), Dig(2), Dig(3)>>]
HGempty == [gd |-> <<GD0>>, ptrs |-> <<>>]
Node(nd, hgs, pad) == [nd |-> nd, hgs |-> hgs, pad |-> pad]
Nodes == {Node(<<d>>, <<HG0>>, <<>>) : d \in NDs}
    \cup {Node(<<>>, <<h>>, <<>>) : h \in HGs}
    \cup {Node(n, h, p) : n \in O({ND0, [ND0 EXCEPT !.sts = <<<<5>>>>]}),
                          h \in UNION {[1..k -> {HG0, HGseg, HGempty}] : k \in 1..3}, p \in O({0, 1, 7})}
Kdf == O([alg : {<<1>>, <<3>>}, info : O({<<>>, <<5, 6>>})])
Wrap == O([keyid : {Dig(1)}, link : O({Link0, [name |-> <<>>, keyid |-> <<>>, digest |-> <<>>]}), alg : {<<1>>, <<2>>}, wk : {<<>>, <<1, 2, 3>>}])
Nonce8 == <<1, 2, 3, 4, 5, 6, 7, 8>>
Ctxs == [k : {"aead"}, kn : Few, nonce : {Nonce8, <<>>}, mode : {<<1>>, <<2>>, <<3>>, <<4>>}, kdf : Kdf, wrap : {<<>>}]
   \cup [k : {"oaep"}, kn : {<<7>>}, nonce : {Nonce8}, mode : {<<1>>, <<4>>}, kdf : Kdf, wrap : Wrap]
Manifests == {[ctx |-> <<>>, node |-> <<n>>, enc |-> <<>>, tag |-> <<>>] : n \in Nodes}
        \cup {[ctx |-> <<c>>, node |-> <<>>, enc |-> <<e>>, tag |-> <<t>>] : c \in Ctxs, e \in {<<>>, <<1, 2, 3>>}, t \in {<<5, 5>>}}

PacketRecs == SetToSeq({[k |-> "packet", abs |-> p] : p \in Packets})
ManifestRecs == SetToSeq({[k |-> "manifest", abs |-> m] : m \in Manifests})
Which == IOEnv.WHICH
ASSUME ndJsonSerialize(IOEnv.OUT, IF Which = "packet" THEN PacketRecs ELSE ManifestRecs)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
