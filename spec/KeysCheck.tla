------------------------------ MODULE KeysCheck ------------------------------
(* Judges key objects (P29).                                                    *)
(*  hist: [size: bytes of the modulus of each key pair, ops: Seq of               *)
(*     [op: "make", k, priv, ok, id, gp]          an object from a key's text, or a new one    *)
(*     [op: "save", o, pw, ok]  [op: "write", k, form: "plain" | "public"]         a file       *)
(*     [op: "load", f, pw, ok, id, gp, pub]       an object from a file                         *)
(*     [op: "sign", o, pad, m, ok, len]  [op: "verify", o, s, pad, m, hurt, ok, res]             *)
(*     [op: "seal", o, l, m, len, ok, out]  [op: "open", o, b, l, hurt, ok, same]]               *)
(*     id: the key pair whose id the object has (0: none); gp: it says it has the private key;   *)
(*     pub: its public form is that of the pair; pw "": no password                               *)
(*  spki: [n, der, id]   sig: [n, xs, qs, pss, msg, sig]   hkdf: [alg, salt, ikm, info, len, out]      *)
(*  aead: [ccm, key, iv, pt, ad, ct, tag, tries: Seq([ccm, key, iv, ad, ct, tag, ok, pt, refused])]  *)
(*  gens: Seq([bits, ok, len, key])                                                             *)
EXTENDS Hkdf, RsaMath, Judge
A == INSTANCE Aes
KM == INSTANCE Keys WITH Ks <- {}, Pws <- {}, Known <- {}, Pads <- {}, Msgs <- {}, Labels <- {}, Encrypted <- TRUE, Max <- 0,
                         own <- {}, thief <- {}, files <- {}, sigs <- {}, boxes <- {}, read <- {}
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets

Step(size, acc, e) ==
    LET bad(holds, c) == IF holds THEN {} ELSE {c}
        o == acc.objs[e.o]
        push(f, x) == [acc EXCEPT ![f] = Append(@, x)]
        with(a, b) == TLCEval([a EXCEPT !.bad = acc.bad \cup b])
        same(k, priv) == e.id = k /\ e.gp = priv /\ e.pub
    IN CASE e.op = "make" -> with(IF e.ok THEN push("objs", KM!Obj(e.k, e.priv)) ELSE acc, bad(e.ok, "makes") \cup bad(e.ok => same(e.k, e.priv), "same-key"))
         [] e.op = "save" -> with(IF e.ok THEN push("files", KM!PrivFile(o.k, e.pw)) ELSE acc, bad(e.ok <=> KM!Save(o, e.pw) # <<>>, "save"))
         [] e.op = "write" -> push("files", [k |-> e.k, pw |-> e.form])
         [] e.op = "load" ->
              LET f == acc.files[e.f]
                  r == IF f.pw = "plain" THEN <<KM!Obj(f.k, TRUE)>> ELSE KM!Load(f, e.pw)
              IN with(IF e.ok THEN push("objs", KM!Obj(f.k, e.gp)) ELSE acc,
                      (IF f.pw = "plain" /\ e.pw # "" THEN {} ELSE bad(e.ok <=> r # <<>>, "load"))
                      \cup bad(e.ok /\ r # <<>> => same(f.k, r[1].priv), "same-key"))
         [] e.op = "sign" -> with(IF e.ok THEN push("sigs", [k |-> o.k, pad |-> e.pad, m |-> e.m]) ELSE acc,
                                  bad(e.ok <=> KM!Sign(o, e.pad, e.m) # <<>>, "sign") \cup bad(e.ok => e.len = size[o.k], "signature-length"))
         [] e.op = "verify" -> with(acc, bad(e.ok, "verify-answers")
                                         \cup bad(e.ok => (e.res <=> ~e.hurt /\ KM!Verifies(o, acc.sigs[e.s], e.pad, e.m)), "verify"))
         [] e.op = "seal" -> with(IF e.ok THEN push("boxes", KM!Seal(o, e.l, e.m)) ELSE acc,
                                  bad(e.ok <=> e.len <= size[o.k] - 66, "seal") \cup bad(e.ok => e.out = size[o.k], "box-length"))
         [] e.op = "open" -> with(acc, bad(e.ok <=> ~e.hurt /\ KM!Opens(o, acc.boxes[e.b], e.l), "open") \cup bad(e.ok => e.same, "opened"))
Names == <<"makes", "same-key", "save", "load", "sign", "signature-length", "verify-answers", "verify", "seal", "box-length", "open", "opened">>
HistClauses(r) ==
    LET end == FoldLeft(LAMBDA a, e : Step(r.size, a, e), [objs |-> <<>>, files |-> <<>>, sigs |-> <<>>, boxes |-> <<>>, bad |-> {}], r.ops)
    IN [x \in DOMAIN Names |-> <<Names[x], Names[x] \notin end.bad>>]

SigClauses(r) ==
    LET em == r.xs[17]
    IN << <<"signature-bytes", /\ Len(r.sig) = Len(r.n) /\ PowIs(r.sig, r.n, r.xs, r.qs, em)
                               /\ IF r.pss THEN PssIs(em, r.n[1], r.msg) ELSE em = Pkcs1(r.msg, Len(r.n))>> >>
AeadClauses(r) ==
    LET right == TLCEval(A!Aead(r.ccm, r.key, r.iv, r.pt, r.ad))
        is(t) == t.ccm = r.ccm /\ t.key = r.key /\ t.iv = r.iv /\ t.ad = r.ad /\ t.ct = r.ct /\ t.tag = r.tag
    IN << <<"ciphertext", r.ct = right.ct>>, <<"tag", r.tag = right.tag>>,
          <<"inverse", \A x \in DOMAIN r.tries : is(r.tries[x]) => r.tries[x].ok /\ r.tries[x].pt = r.pt>>,
          <<"authentic", \A x \in DOMAIN r.tries : ~is(r.tries[x]) => ~r.tries[x].ok /\ r.tries[x].refused>> >>
GenClauses(r) ==
    << <<"sizes", \A x \in DOMAIN r.gens : LET g == r.gens[x] IN
            /\ g.ok <=> g.bits \in {128, 256}
            /\ g.ok => g.len = g.bits /\ 8 * Len(g.key) = g.bits>>,
       <<"fresh", LET good == {x \in DOMAIN r.gens : r.gens[x].ok}                  \* no eight bytes occur twice, in one key or in two
                      pieces == UNION {{<<x, p>> : p \in 1..(Len(r.gens[x].key) \div 8)} : x \in good}
                  IN Cardinality({SubSeq(r.gens[z[1]].key, 8 * z[2] - 7, 8 * z[2]) : z \in pieces}) = Cardinality(pieces)>> >>

Clauses(r) == CASE r.t = "hist" -> HistClauses(r) [] r.t = "sig" -> SigClauses(r) [] r.t = "aead" -> AeadClauses(r) [] r.t = "gens" -> GenClauses(r)
                [] r.t = "spki" -> << <<"public-key", r.der = Spki(r.n)>>, <<"key-id", r.id = KeyIdOf(r.n)>> >>
                [] r.t = "hkdf" -> << <<"derive", r.out = HkdfOf(r.alg, r.salt, r.ikm, r.info, r.len)>> >>
VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
