------------------------------- MODULE RsaTest -------------------------------
(* Self-tests of RsaMath: limbs, products, and padding on small cases.             *)
EXTENDS RsaMath
LOCAL INSTANCE SequencesExt
B(x) == <<x \div 65536, (x \div 256) % 256, x % 256>>
Val(l) == FoldLeft(LAMBDA s, i : s + l[i] * (IF i = 1 THEN 1 ELSE 4096), 0, [i \in 1..2 |-> i])
Some == {0, 1, 255, 256, 4095, 4096, 65535, 65536, 1000003, 16777215}
ASSUME \A x \in Some : Val(Limbs(B(x))) = x
Small == {0, 1, 2, 255, 256, 4095, 4097, 32000}
ASSUME \A a, b \in Small : \A n \in {1, 7, 255, 4096, 30001} :
          LET q == (a * b) \div n r == (a * b) % n
              M(x, y) == MulModIs(Limbs(B(a)), Limbs(B(b)), Limbs(B(n)), Limbs(<<0>> \o B(x)), Limbs(B(y)))
          IN q < 16777216 => M(q, r) /\ ~M(q, r + 1) /\ ~M(q + 1, r)
\* MGF1 with SHA-256 of "foo", 3 bytes: 3b da dc... is of another hash; check lengths and prefixes
ASSUME Mgf1(<<102, 111, 111>>, 40) = SubSeq(Sha256(<<102, 111, 111, 0, 0, 0, 0>>) \o Sha256(<<102, 111, 111, 0, 0, 0, 1>>), 1, 40)
\* an OAEP encoding made here opens, with its label only
Seed == [i \in 1..32 |-> (i * 37) % 256]
Enc(msg, label, k) == LET db == Sha256(label) \o [i \in 1..(k - 66 - Len(msg)) |-> 0] \o <<1>> \o msg
                          mdb == Xor8(db, Mgf1(Seed, k - 33))
                      IN <<0>> \o Xor8(Seed, Mgf1(mdb, 32)) \o mdb
ASSUME \A m \in {<<>>, <<0>>, <<1, 2, 3>>, [i \in 1..62 |-> i]} : LET e == Enc(m, <<1, 2>>, 128) IN
          /\ Len(e) = 128 /\ OaepOpen(e, <<1, 2>>) = <<m>> /\ OaepOpen(e, <<1, 3>>) = <<>>
          /\ OaepOpen([e EXCEPT ![1] = 1], <<1, 2>>) = <<>>
ASSUME Len(Pkcs1(<<1>>, 128)) = 128 /\ Len(Pkcs1(<<1>>, 256)) = 256
ASSUME Len(Spki([i \in 1..256 |-> 255])) = 294 /\ Len(Spki([i \in 1..128 |-> 255])) = 162
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
