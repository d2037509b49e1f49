------------------------------- MODULE ShowCheck -------------------------------
(* Judges runs of packet_reader and the text of parsed values (P28).               *)
(*  run:  [bytes, store: Seq(Hash): RSA keys of the reader, sigs: Seq([key, covered, sig]),   *)
(*         q: [key: opt bytes, ccm, kn: opt Num, salt: opt Num, wrap: Seq(Hash): private keys],  *)
(*         seal: opt [key, ccm, salt: opt Num], plain: opt bytes (the value of the sealed node, *)
(*         if its tag is right), pretty, ok, shown, valid, hexes: Seq(bytes), words: Seq(bytes)]  *)
(*  text: [k, bytes, ok, same, hexes, words]  the text of a parsed packet, manifest or name        *)
EXTENDS Wire, Sha256, Judge
SC == INSTANCE SignCheck WITH i <- 0
Sh == INSTANCE Show WITH CheckFirst <- TRUE, c <- 0, stage <- "start", told <- {}

Grade(k, b) == IF k = "packet" THEN GPacket(b) ELSE GManifestB(b)
Dec(k, b) == IF k = "packet" THEN DPacket(b) ELSE DManifestB(b)

RECURSIVE IsSub(_, _)
IsSub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
               ELSE IF a[1] = b[1] THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b))
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Word(v) == v # <<>> /\ \A j \in DOMAIN v : v[j] \in (48..57) \cup (65..90) \cup (97..122)

\* what a reader of the text finds in it
HashesOf(node) == SelectSeq([j \in 1..Len(Cat([g \in DOMAIN node.hgs |-> node.hgs[g].ptrs])) |->
                                Cat([g \in DOMAIN node.hgs |-> node.hgs[g].ptrs])[j].v], LAMBDA v : Len(v) >= 4)
NameWords(n) == {n[j].v : j \in {x \in DOMAIN n : n[x].t = 1 /\ Word(n[x].v)}}
                \cup {Digits(NumToInt(n[j].v)) : j \in {x \in DOMAIN n : n[x].t \in {5, 16} /\ Len(n[x].v) \in 1..3}}
NodeText(node, r) == IsSub(TLCEval(HashesOf(node)), r.hexes)
ManText(m, r) == m.node # <<>> => NodeText(m.node[1], r)
PacketText(p, pretty, r) ==
    /\ p.co.name # <<>> => NameWords(p.co.name[1]) \subseteq Range(r.words)
    /\ (p.co.pt = <<3>> /\ p.co.pl # <<>>) => LET b == p.co.pl[1] IN GManifestB(b) = 2 => ManText(DManifestB(b), r)
    /\ (pretty /\ p.co.pt = <<0>> /\ p.co.pl # <<>> /\ Len(p.co.pl[1]) >= 4) => p.co.pl[1] \in Range(r.hexes)

\* ---- a run
Kn(q) == IF q.kn # <<>> THEN q.kn[1] ELSE StripZeros(SubSeq(Sha256(q.key[1]), 1, 8))
KeyCase(r, ctx) ==
    LET aes == r.q.key # <<>> /\ Kn(r.q) = ctx.kn
        wrap == ctx.k = "oaep" /\ ctx.wrap # <<>> /\ ctx.wrap[1].keyid \in Range(r.q.wrap)
    IN IF r.plain = <<>> THEN "wrong"
       ELSE IF aes THEN IF r.q.key[1] = r.seal[1].key /\ r.q.ccm = r.seal[1].ccm /\ r.q.salt = r.seal[1].salt THEN "right" ELSE "wrong"
       ELSE IF wrap THEN "right" ELSE "none"
CaseOf(r) ==
    LET b == r.bytes
        g == TLCEval(GPacket(b))
        es == TLCEval(PacketElems(b))
        p == TLCEval(DPacket(b))
        isM == p.co.pt = <<3>> /\ p.co.pl # <<>> /\ GManifestB(p.co.pl[1]) = 2
        m == TLCEval(DManifestB(p.co.pl[1]))
        alg == DAlg(b, One(es, 3).lo, One(es, 3).hi)
        val == IF Cnt(es, 3) = 0 THEN "none"
               ELSE IF alg.k # "crc" /\ alg.keyid[1] \notin Range(r.store) THEN "unknown"
               ELSE IF SC!Genuine([sigs |-> r.sigs], [bytes |-> b, store |-> r.store]) THEN "valid" ELSE "invalid"
    IN IF g = 0 THEN [file |-> "other", val |-> "none", man |-> "no", key |-> "none"]
       ELSE IF ~isM THEN [file |-> "packet", val |-> val, man |-> "no", key |-> "none"]
       ELSE IF m.enc = <<>> THEN [file |-> "packet", val |-> val, man |-> "plain", key |-> "none"]
       ELSE [file |-> "packet", val |-> val, man |-> "sealed", key |-> KeyCase(r, m.ctx[1])]
\* packets whose form the format leaves open, and manifests that are none, are not judged
Judged(r) == LET g == TLCEval(GPacket(r.bytes)) IN
    g = 0 \/ (g = 2 /\ LET p == TLCEval(DPacket(r.bytes)) IN
                 p.co.pt # <<3>> \/ (p.co.pl # <<>> /\ GManifestB(p.co.pl[1]) = 2))
RunClauses(r) ==
    LET judged == TLCEval(Judged(r))
        f == IF judged THEN TLCEval(Sh!Final(CaseOf(r))) ELSE [ok |-> TRUE, told |-> {}]
        p == TLCEval(DPacket(r.bytes))
        inside == TLCEval(IF judged /\ r.plain # <<>> THEN HashesOf(DNodeB(r.plain[1])) ELSE <<>>)
    IN << <<"ends", judged => (r.ok <=> f.ok)>>,
          <<"shows-packet", (judged /\ "packet" \in f.told) => r.shown /\ PacketText(p, r.pretty, r)>>,
          <<"says-valid", judged => (r.valid <=> "valid" \in f.told)>>,
          <<"shows-inside", (judged /\ "inside" \in f.told) => IsSub(inside, r.hexes)>>,
          <<"keeps-inside", (judged /\ "inside" \notin f.told /\ inside # <<>>) =>
                \A j \in DOMAIN inside : inside[j] \notin Range(r.hexes)>> >>

\* ---- the text of a value
TextClauses(r) ==
    LET g == TLCEval(Grade(r.k, r.bytes))
        v == TLCEval(Dec(r.k, r.bytes))
    IN << <<"has-text", g = 2 => r.ok>>,
          <<"unchanged", r.ok => r.same>>,
          <<"tells", (g = 2 /\ r.ok) =>
               CASE r.k = "packet" -> PacketText(v, FALSE, r)
                 [] r.k = "manifest" -> ManText(v, r)
                 [] OTHER -> TRUE>> >>

Clauses(r) == IF r.t = "run" THEN RunClauses(r) ELSE TextClauses(r)
VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
