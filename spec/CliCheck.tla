------------------------------ MODULE CliCheck -------------------------------
(* Judges runs of the command-line tools (P23).                                  *)
(*  [o: writer options, file: bytes, exit: BOOLEAN (the writer exited with 0),    *)
(*   ev: Seq(event) the packets of the directory (see FlicTree), in post-order    *)
(*       of the pointers from the root (what is not reached comes first),         *)
(*   names: BOOLEAN every packet's file is named after its hash,                  *)
(*   links: number of links to names, linksigned: each of them is signed with the  *)
(*   signing key, sigok: the root's signature is the signing  *)
(*   key's, keyid: its key id, runs: Seq([q, ok, old, out]) with *)
(*   the output file before and after,                                            *)
(*   left: the number of files in the directory afterwards,                        *)
(*   shown: Seq([q, ok, raw, at]) the standard output of the reader without an     *)
(*   output file, and where the payloads are in it]                           *)
EXTENDS FlicTree, Cli, Judge
FC == INSTANCE FlicCheck WITH i <- 0

Prefixed(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Published(r) == [c |-> Config(r.o), file |-> r.file, ok |-> r.exit, ev |-> r.ev]

Context(r) ==
    LET o == Objs(r.ev)
        n == Len(o)
        w == r.o
        ms == Manifests(o)
        ctx(i) == o[i].ctx[1]
        kdfOk(k) == IF w.kdf # <<>> /\ w.uuid
                    THEN k # <<>> /\ k[1].alg = w.kdf[1] /\ k[1].info # <<>> /\ Len(k[1].info[1]) = 16
                    ELSE k = KdfOf(w)
    IN << <<"encrypted", \A i \in ms : (o[i].ctx # <<>>) = Encrypted(w)>>,
          <<"context-kind", \A i \in ms : o[i].ctx # <<>> => ctx(i).k = (IF w.wrap # <<>> THEN "oaep" ELSE "aead")>>,
          <<"context-key-number", w.key # <<>> => \A i \in ms : o[i].ctx # <<>> => ctx(i).kn = KeyNumber(w)>>,
          <<"context-one-key-number", \A i, j \in ms : (o[i].ctx # <<>> /\ o[j].ctx # <<>>) => ctx(i).kn = ctx(j).kn>>,
          <<"context-mode", \A i \in ms : o[i].ctx # <<>> => ctx(i).mode = <<Mode(w)>>>>,
          <<"context-nonce", \A i \in ms : o[i].ctx # <<>> => Len(ctx(i).nonce) = NonceLen(w)>>,
          <<"context-fresh", \A i, j \in ms : (o[i].ctx # <<>> /\ o[j].ctx # <<>> /\ o[i].h # o[j].h) => ctx(i).nonce # ctx(j).nonce>>,
          <<"context-kdf", \A i \in ms : o[i].ctx # <<>> => kdfOk(ctx(i).kdf)>>,
          <<"context-one-kdf", \A i, j \in ms : (o[i].ctx # <<>> /\ o[j].ctx # <<>>) => ctx(i).kdf = ctx(j).kdf>>,
          <<"wrapped-in-root", w.wrap # <<>> => \A i \in ms : o[i].ctx # <<>> =>
                (IF i = n THEN ctx(i).wrap # <<>> /\ ctx(i).wrap[1].keyid = w.wrap[1].keyid /\ Len(ctx(i).wrap[1].wk) = w.wrap[1].bytes
                 ELSE ctx(i).wrap = <<>>)>>,
          <<"signature", w.sign => (o[n].val # <<>> /\ o[n].val[1].k = "rsa" /\ o[n].val[1].keyid = <<r.keyid>> /\ r.sigok)>>,
          <<"no-signature", ~w.sign => o[n].val = <<>>>> >>

Runs(r) ==
    LET h == r.ev[Len(r.ev)].h
        want == TLCEval([x \in DOMAIN r.runs |-> Expect(r.o, r.runs[x].q, h)])
        x == DOMAIN r.runs
    IN << <<"reader-exact", \A k \in x : want[k] = "exact" => (r.runs[k].ok /\ r.runs[k].out = r.file)>>,
          <<"reader-fails", \A k \in x : want[k] = "fail" => ~r.runs[k].ok>>,
          <<"reader-no-wrong-data", \A k \in x : (Prefixed(r.runs[k].out, r.file) \/ (~r.runs[k].ok /\ r.runs[k].out = r.runs[k].old)) /\ (r.runs[k].ok => r.runs[k].out = r.file)>> >>

\* what the reader writes to the standard output, when it is given no file: each payload whole and in order, among its messages
Shown(r) ==
    LET h == r.ev[Len(r.ev)].h
        ps == PayloadSize(Config(r.o))
        n == (Len(r.file) + ps - 1) \div ps
        chunk(j) == SubSeq(r.file, (j - 1) * ps + 1, IF j = n THEN Len(r.file) ELSE j * ps)
        whole(s) == /\ Len(s.at) = n
                    /\ \A j \in 1..n : SubSeq(s.raw, s.at[j] + 1, s.at[j] + Len(chunk(j))) = chunk(j)
                    /\ \A j \in 1..(n - 1) : s.at[j + 1] >= s.at[j] + ps
    IN << <<"reader-shows", \A k \in DOMAIN r.shown : Expect(r.o, r.shown[k].q, h) = "exact" => (r.shown[k].ok /\ whole(r.shown[k]))>> >>

Prefix(p, cs) == [k \in DOMAIN cs |-> <<p \o cs[k][1], cs[k][2]>>]
Clauses(r) ==
    LET c == Config(r.o)
        p == Published(r)
        named == Cardinality({Objs(r.ev)[k].co.name : k \in {j \in DOMAIN r.ev : Objs(r.ev)[j].co.name # <<>>}})
    IN IF ~Sensible(r.o) THEN << <<"refused", ~r.exit>>, <<"nothing-left", r.left = 0>> >>
       ELSE IF ~Feasible(c, IntToNum(Len(r.file))) /\ ~r.exit THEN <<>>
       ELSE IF ~r.exit THEN << <<"published", FALSE>> >>
       ELSE IF Violated(FC!Sound(p)) # {} THEN FC!Sound(p)
       ELSE << <<"file-names", r.names>>,
               <<"links", r.links = IF r.o.link THEN named ELSE 0>>,
               <<"links-signed", r.o.sign => r.linksigned>> >>
            \o Prefix("tree-", FC!P02(p)) \o Prefix("size-", FC!P03(p)) \o Prefix("chunk-", FC!P04(p))
            \o Prefix("annotation-", FC!P05(p)) \o Prefix("name-", FC!P06(p))
            \o Context(r) \o Runs(r) \o Shown(r)

VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
