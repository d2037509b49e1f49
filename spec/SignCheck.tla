------------------------------ MODULE SignCheck ------------------------------
(* Judges signing and validation (P13) and checksums (P25).                      *)
(*  hist: [ops, timeonly, tries: Seq([x, p, ok])]  after operation x, the packet made by operation p *)
(*  val:  [sigs: Seq([key: Hash, covered, sig]), tries: Seq([store: Seq(Hash), bytes, ok])]           *)
(*  rsa:  [n, xs, qs: witnesses of sig^65537, key: the signer's KeyId, bytes]                            *)
(*  crc:  [bufs: Seq(bytes), sum: bytes, tries: Seq([bufs, pl, ok, res])]                             *)
EXTENDS Wire, Crc32c, Judge
RM == INSTANCE RsaMath
V13 == INSTANCE Validation WITH Keys <- {1, 2}, Msgs <- {1, 2}, MaxPkts <- 0, sigs <- {}, store <- {}, pkts <- {}, accepted <- {}

\* ---- symbolic
Pkt(ops, tonly) == [x \in DOMAIN ops |->
    CASE ops[x].op = "sign" -> V13!Signed(ops[x].k, ops[x].m)
      [] ops[x].op = "sum" -> V13!Sum(IF tonly THEN 1 ELSE ops[x].m)
      [] ops[x].op = "plain" -> V13!Plain(ops[x].m)
      [] OTHER -> V13!Plain(0)]
RECURSIVE SigOf(_, _, _)
SigOf(ops, tonly, x) == IF ops[x].op = "forge" THEN SigOf(ops, tonly, ops[x].i) ELSE Pkt(ops, tonly)[x].sig
PktOf(ops, tonly, x) == IF ops[x].op # "forge" THEN Pkt(ops, tonly)[x]
    ELSE [alg |-> IF ops[x].a = 0 THEN "crc" ELSE "rsa", key |-> ops[x].a,
          m |-> IF ops[x].a = 0 /\ tonly THEN 1 ELSE ops[x].m, sig |-> SigOf(ops, tonly, x)]
StoreAt(ops, x) == {ops[y].k : y \in {z \in 1..x : ops[z].op = "add"}}
HistClauses(r) ==
    LET ps == TLCEval([x \in DOMAIN r.ops |-> PktOf(r.ops, r.timeonly, x)])
    IN << <<"verdict", \A t \in DOMAIN r.tries :
              r.tries[t].ok <=> V13!Accepts(ps[r.tries[t].p], StoreAt(r.ops, r.tries[t].x))>> >>

\* ---- on the bytes
Covered(b) == LET es == PacketElems(b) IN SubSeq(b, One(es, 2).lo - 4, One(es, 2).hi) \o SubSeq(b, One(es, 3).lo - 4, One(es, 3).hi)
Genuine(r, t) ==
    LET b == t.bytes
        es == TLCEval(PacketElems(b))
        a == One(es, 3)
        d == TLCEval(DAlg(b, a.lo, a.hi))
        cov == TLCEval(Covered(b))
        sig == V(b, One(es, 4))
    IN IF Cnt(es, 3) = 0 THEN TRUE
       ELSE IF d.k = "crc" THEN sig = Crc(cov)
       ELSE /\ d.keyid[1] \in Range(t.store)
            /\ \E j \in DOMAIN r.sigs : /\ r.sigs[j].key = d.keyid[1]
                                        /\ r.sigs[j].sig = sig
                                        /\ r.sigs[j].covered = cov
Good(r, t) == LET g == TLCEval(GPacket(t.bytes))
              IN CASE g = 0 -> ~t.ok
                   [] g = 1 -> t.ok => Cnt(PacketElems(t.bytes), 2) = 1 /\ Genuine(r, t)
                   [] OTHER -> t.ok <=> Genuine(r, t)
ValClauses(r) == << <<"validated", \A t \in DOMAIN r.tries : Good(r, r.tries[t])>> >>

\* a signed packet, without the crypto library
RsaClauses(r) ==
    LET g == TLCEval(GPacket(r.bytes))
        es == TLCEval(PacketElems(r.bytes))
        signed == g = 2 /\ Cnt(es, 3) = 1 /\ Cnt(es, 4) = 1
        a == One(es, 3)
        sig == V(r.bytes, One(es, 4))
        d == TLCEval(DAlg(r.bytes, a.lo, a.hi))
        kid == [a |-> 1, v |-> TLCEval(RM!KeyIdOf(r.n))]
    IN << <<"signed", signed>>,
          <<"key-id", r.key = kid /\ (signed => d.keyid = <<kid>>)>>,
          <<"signature", signed => Len(sig) = Len(r.n)
                /\ RM!PowIs(sig, r.n, r.xs, r.qs, RM!Pkcs1(Covered(r.bytes), Len(r.n)))>> >>

CrcClauses(r) ==
    << <<"checksum", r.sum = Crc(Cat(r.bufs))>>,
       <<"verified", \A t \in DOMAIN r.tries : r.tries[t].ok => (r.tries[t].res <=> r.tries[t].pl = Crc(Cat(r.tries[t].bufs)))>>,
       <<"verify-runs", \A t \in DOMAIN r.tries : r.tries[t].ok>> >>

Clauses(r) == CASE r.t = "hist" -> HistClauses(r) [] r.t = "val" -> ValClauses(r) [] r.t = "rsa" -> RsaClauses(r) [] r.t = "crc" -> CrcClauses(r)
VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
