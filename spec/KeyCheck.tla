------------------------------- MODULE KeyCheck ------------------------------
(* Judges key wrapping (P15) and histories of keystores and decryptions (P16).     *)
(*  keys: [pool: Seq of manifests of KeyStore, ops: Seq of                           *)
(*     [op: "rsa", n, k, priv] [op: "aes", num, p] [op: "dec", m: pool index, ok, same]  *)
(*     [op: "getaes", num, ok, p, nf] [op: "getname", n, ok, k, priv, nf]             *)
(*     [op: "getid", k, ok, gk, priv, nf] [op: "getpub", k, ok, gk, nf]]              *)
(*     same: the node is the one encrypted; nf: the error is the matching not-found error *)
(*  wrap: [n, em, xs, qs: witnesses of em^65537; man: the manifest's bytes, kn, mode, kdf, salt, key] *)
(*  tree: [n: number of manifests, mans: Seq(manifest bytes) in publication order, kn, mode, kdf, keyid, *)
(*         rets: Seq([have, ok, exact])]                                             *)
(*  open: [tries: Seq([changed, ok, same])]                                           *)
EXTENDS Wire, RsaMath, Judge
KS == INSTANCE KeyStore WITH Names <- {}, Keys <- {}, Nums <- {}, Manifests <- {}, MaxOps <- 0, st <- 0, hist <- 0, last <- 0

\* ---- histories: the set of states the store may be in
Has(f, x) == x \in DOMAIN f
Step(pool, acc, e) ==
    LET S == acc.S
        one == CHOOSE s \in S : TRUE
        bad(c) == TLCEval([S |-> S, bad |-> acc.bad \cup {c}])
        keep(holds, c) == IF holds THEN acc ELSE bad(c)
    IN CASE e.op = "rsa" -> TLCEval([acc EXCEPT !.S = {KS!AddRsa(s, e.n, e.k, e.priv) : s \in S}])
         [] e.op = "aes" -> TLCEval([acc EXCEPT !.S = {KS!AddAes(s, e.num, e.p) : s \in S}])
         [] e.op = "dec" ->
              LET outs == UNION {KS!Dec(s, pool[e.m]) : s \in S}
                  fit == {o.st : o \in {x \in outs : x.ok = e.ok}}
              IN IF fit = {} THEN TLCEval([S |-> {o.st : o \in outs}, bad |-> acc.bad \cup {IF e.ok THEN "must-refuse" ELSE "must-open"}])
                 ELSE IF e.ok /\ ~e.same THEN TLCEval([S |-> fit, bad |-> acc.bad \cup {"node"}])
                 ELSE TLCEval([acc EXCEPT !.S = fit])
         [] e.op = "getaes" ->
              LET fit == {s \in S : IF Has(s.aes, e.num) THEN e.ok /\ e.p = s.aes[e.num] ELSE ~e.ok /\ e.nf}
              IN IF fit = {} THEN bad("aes-lookup") ELSE TLCEval([acc EXCEPT !.S = fit])
         [] e.op = "getname" -> keep(IF Has(one.name, e.n) THEN e.ok /\ e.k = one.name[e.n].k /\ e.priv = one.name[e.n].priv
                                     ELSE ~e.ok /\ e.nf, "name-lookup")
         [] e.op = "getid" -> keep(IF Has(one.id, e.k) THEN e.ok /\ e.gk = e.k /\ e.priv = one.id[e.k].priv ELSE ~e.ok /\ e.nf, "id-lookup")
         [] e.op = "getpub" -> keep(IF Has(one.id, e.k) THEN e.ok /\ e.gk = e.k ELSE ~e.ok /\ e.nf, "public-lookup")
KeyClauses(r) ==
    LET end == FoldLeft(LAMBDA acc, e : Step(r.pool, acc, e), [S |-> {KS!Empty}, bad |-> {}], r.ops)
    IN [x \in 1..7 |-> LET c == <<"must-refuse", "must-open", "node", "aes-lookup", "name-lookup", "id-lookup", "public-lookup">>[x]
                       IN <<c, c \notin end.bad>>]

\* ---- the wrapped key
Ascii == <<70, 76, 73, 67, 32, 82, 83, 65, 45, 79, 65, 69, 80>>           \* "FLIC RSA-OAEP"
Label(c) == Ascii \o TLV(0, NumV(c.kn)) \o TLV(2, NumV(c.mode)) \o Opt(c.kdf, EncKdf)
            \o TLV(9, EncHash(c.wrap[1].keyid)) \o TLV(3, NumV(c.wrap[1].alg))
CtxIs(c, r) == c.k = "oaep" /\ c.kn = r.kn /\ c.mode = <<r.mode>> /\ c.kdf = r.kdf
WrapClauses(r) ==
    LET g == TLCEval(GManifestB(r.man))
        m == TLCEval(DManifestB(r.man))
        fine == g = 2 /\ m.ctx # <<>> /\ m.ctx[1].wrap # <<>>
        c == m.ctx[1]
        w == c.wrap[1]
    IN << <<"wrapped", fine>>,
          <<"context", fine => CtxIs(c, r) /\ w.alg = <<1>> /\ w.link = <<>>>>,
          <<"key-id", fine => w.keyid = [a |-> 1, v |-> KeyIdOf(r.n)]>>,
          <<"ciphertext", fine => Len(w.wk) = Len(r.n) /\ PowIs(r.em, r.n, r.xs, r.qs, w.wk)>>,
          <<"key", fine => OaepOpen(r.em, Label(c)) = <<r.salt \o r.key>>>> >>

\* ---- trees
TreeClauses(r) ==
    LET m == TLCEval([x \in DOMAIN r.mans |-> IF GManifestB(r.mans[x]) = 2 THEN DManifestB(r.mans[x]) ELSE [ctx |-> <<>>]])
        n == Len(m)
        ret(have, ok) == \A x \in DOMAIN r.rets : r.rets[x].have = have => (r.rets[x].ok = ok /\ (ok => r.rets[x].exact))
    IN << <<"sealed", n > 1 /\ \A x \in DOMAIN m : m[x].ctx # <<>> /\ CtxIs(m[x].ctx[1], r)>>,
          <<"root-wraps", \A x \in DOMAIN m : m[x].ctx # <<>> => (m[x].ctx[1].wrap # <<>> <=> x = n)>>,
          <<"key-id", (m[n].ctx # <<>> /\ m[n].ctx[1].wrap # <<>>) => m[n].ctx[1].wrap[1].keyid = [a |-> 1, v |-> r.keyid]>>,
          <<"private-key", ret("private", TRUE) /\ ret("replaced", TRUE)>>,
          <<"aes-key", ret("aes", TRUE)>>,
          <<"no-key", ret("none", FALSE)>>,
          <<"public-key", ret("public", FALSE)>>,
          <<"other-key", ret("other", FALSE)>>,
          <<"wrong-aes", ret("wrong aes", FALSE)>>,
          <<"no-output", \A x \in DOMAIN r.rets : ~r.rets[x].ok => r.rets[x].none>> >>
OpenClauses(r) == << <<"opens", \A x \in DOMAIN r.tries : ~r.tries[x].changed => r.tries[x].ok /\ r.tries[x].same>>,
                     <<"refuses", \A x \in DOMAIN r.tries : r.tries[x].changed => ~r.tries[x].ok>> >>

Clauses(r) == CASE r.t = "keys" -> KeyClauses(r) [] r.t = "wrap" -> WrapClauses(r)
                [] r.t = "tree" -> TreeClauses(r) [] r.t = "open" -> OpenClauses(r)
VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
