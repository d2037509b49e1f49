------------------------------ MODULE AeadCheck ------------------------------
(* Judges manifest encryption (P14).                                             *)
(*  enc: [p: [ccm, key, salt: opt 4 bytes, kn, kdf], node, bytes (of the manifest),   *)
(*        tries: Seq([p, bytes, ok, node: opt node])]                              *)
(*  nonces: [uses: Seq(bytes)]: key, salt and nonce of many encryptions, each one sequence *)
EXTENDS Wire, Aes, Judge
ModeOf(p) == (IF Len(p.key) = 16 THEN 1 ELSE 2) + (IF p.ccm THEN 2 ELSE 0)
SaltOf(p) == IF p.salt = <<>> THEN <<>> ELSE p.salt[1]
AgreesP(a, b) == a.ccm = b.ccm /\ a.key = b.key /\ a.salt = b.salt /\ a.kn = b.kn
EncClauses(r) ==
    LET g == TLCEval(GManifestB(r.bytes))
        m == TLCEval(DManifestB(r.bytes))
        es == Elems(r.bytes, 1, Len(r.bytes))
        sealed == g = 2 /\ m.ctx # <<>> /\ m.enc # <<>> /\ m.tag # <<>>
        c == m.ctx[1]
        ad == LET e == One(es, 0) IN SubSeq(r.bytes, e.lo - 4, e.hi)
        right == TLCEval(Aead(r.p.ccm, r.p.key, SaltOf(r.p) \o c.nonce, EncNodeV(r.node), ad))
    IN << <<"sealed", sealed>>,
          <<"context", sealed => /\ c.k = "aead" /\ c.kn = r.p.kn /\ c.mode = <<ModeOf(r.p)>> /\ c.kdf = r.p.kdf
                                 /\ Len(c.nonce) = 12 - Len(SaltOf(r.p))>>,
          <<"standard", sealed /\ Len(c.nonce) = 12 - Len(SaltOf(r.p)) => m.enc[1] = right.ct /\ m.tag[1] = right.tag>>,
          <<"opens", \A t \in DOMAIN r.tries : LET y == r.tries[t] IN
                        (y.bytes = r.bytes /\ AgreesP(y.p, r.p)) => y.ok /\ y.node = <<r.node>>>>,
          <<"refused", \A t \in DOMAIN r.tries : LET y == r.tries[t] IN
                        y.bytes # r.bytes \/ ~AgreesP(y.p, r.p) => ~y.ok>> >>
NonceClauses(r) == << <<"fresh", Cardinality(ToSet(r.uses)) = Len(r.uses)>> >>
Clauses(r) == IF r.t = "enc" THEN EncClauses(r) ELSE NonceClauses(r)
VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
