----------------------------- MODULE FactoryCheck -----------------------------
(* Judges what one factory made (P31): [o: options, calls: Seq of                                                      *)
(*  call @@ [ok, b: bytes of the packet, pt: opt bytes (decrypted node), sig: opt key name asked for,                   *)
(*           signed: opt key name whose signature (or "crc" whose checksum) the packet holds, keyid: opt Hash,          *)
(*           same: the source has the bytes it had before, cnt, bytes: the factory's counters afterwards]]              *)
EXTENDS Judge, FlicTree
F == INSTANCE Factory WITH Strict <- TRUE, opts <- 0, made <- 0, count <- 0

\* what is secret or random, blanked
Blank(m) == [m EXCEPT !.ctx = IF @ = <<>> THEN <<>>
                              ELSE <<[@[1] EXCEPT !.nonce = Zeros(Len(@)),
                                                  !.wrap = IF @ = <<>> THEN <<>> ELSE <<[@[1] EXCEPT !.wk = Zeros(Len(@)), !.keyid = ZeroHash]>>]>>,
                      !.enc = IF @ = <<>> THEN <<>> ELSE <<Zeros(Len(@[1]))>>,
                      !.tag = IF @ = <<>> THEN <<>> ELSE <<Zeros(Len(@[1]))>>]
Made(o, c) ==
    LET p == TLCEval(DPacket(c.b))
        m == TLCEval(DManifestB(p.co.pl[1]))
    IN IF GPacket(c.b) # 2 \/ p.co.pl = <<>> THEN << <<"packet", FALSE>> >>
       ELSE IF GManifestB(p.co.pl[1]) # 2 THEN << <<"manifest", FALSE>> >>
       ELSE << <<"content-object", p.co.name = c.name /\ p.co.exp = c.exp /\ p.co.pt = <<3>> /\ p.co.fc = <<>>>>,
               <<"manifest-as-asked", Blank(m) = Blank(F!ManifestOf(o, c))>>,
               <<"sealed-node", o.enc # <<>> => (c.pt # <<>> /\ c.pt[1] = EncNodeV(F!NodeOf(o, c)))>>,
               <<"wrapping-key", \A x \in DOMAIN m.ctx : m.ctx[x].wrap # <<>> => <<m.ctx[x].wrap[1].keyid>> = o.wrapid>>,
               <<"signature", IF c.sig = <<>> THEN p.val = <<>>
                              ELSE /\ c.signed = c.sig
                                   /\ p.val # <<>>
                                   /\ IF c.sig[1] = "crc" THEN p.val[1].k = "crc" ELSE p.val[1].k = "rsa" /\ p.val[1].keyid = c.keyid>> >>
Clauses(r) ==
    LET n == Len(r.calls)
        good == [k \in 1..n |-> F!Fits(r.o, r.calls[k])]
        each == TLCEval([k \in 1..n |-> IF r.calls[k].ok THEN Violated(Made(r.o, r.calls[k])) ELSE {}])
        names == {"packet", "manifest", "content-object", "manifest-as-asked", "sealed-node", "wrapping-key", "signature"}
        made(k) == {x \in 1..k : r.calls[x].ok}
        bytes(k) == FoldLeft(LAMBDA s, x : IF r.calls[x].ok THEN s + Len(r.calls[x].b) ELSE s, 0, [x \in 1..k |-> x])
    IN [j \in 1..Cardinality(names) |-> <<SetToSeq(names)[j], \A k \in 1..n : SetToSeq(names)[j] \notin each[k]>>]
       \o << <<"made", \A k \in 1..n : good[k] => r.calls[k].ok>>,
             <<"refused", \A k \in 1..n : ~good[k] => ~r.calls[k].ok>>,
             <<"source-unchanged", \A k \in 1..n : r.calls[k].same>>,
             <<"counts", \A k \in 1..n : r.calls[k].cnt = Cardinality(made(k)) /\ r.calls[k].bytes = bytes(k)>>,
             <<"graph", r.graph = <<>> \/ \A k \in 1..n : r.calls[k].ok => r.calls[k].id \in ToSet(r.graph[1])>> >>
VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
