------------------------------- MODULE RsaMath -------------------------------
(* RSA with the public exponent 65537, checked with witnesses: TLC's integers   *)
(* have 32 bits, so big numbers are sequences of limbs of 12 bits, least first,  *)
(* and a product modulo n is checked by a quotient that the record brings.      *)
(* OAEP with SHA-256 and MGF1 (RFC 8017), PKCS #1 v1.5 signatures with SHA-256.  *)
EXTENDS Naturals, Integers, Sequences, Bitwise, TLC, Sha256
LOCAL INSTANCE SequencesExt

Limbs(b) == LET n == Len(b)
                at(j) == IF j < n THEN b[n - j] ELSE 0
            IN [x \in 1..((2 * n + 2) \div 3) |->
                   LET k == x - 1
                       j == 3 * (k \div 2)
                   IN IF k % 2 = 0 THEN at(j) + (at(j + 1) % 16) * 256 ELSE at(j + 1) \div 16 + at(j + 2) * 16]
\* coefficients of a product, not carried
Conv(a, b) == LET la == Len(a) lb == Len(b)
              IN [k \in 1..(la + lb) |->
                     LET lo == IF k - lb > 0 THEN k + 1 - lb ELSE 1
                         hi == IF k < la THEN k ELSE la
                     IN FoldLeft(LAMBDA s, i : s + a[i] * b[k + 1 - i], 0, [x \in 1..(hi + 1 - lo) |-> lo + x - 1])]
At(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
\* a * b = q * n + r, as numbers
MulModIs(a, b, n, q, r) ==
    LET p == TLCEval(Conv(a, b))
        s == TLCEval(Conv(q, n))
        len == (IF Len(p) > Len(s) THEN Len(p) ELSE Len(s)) + Len(r)
        end == FoldLeft(LAMBDA acc, k :
                    IF ~acc.ok THEN acc
                    ELSE LET d == At(p, k) - At(s, k) - At(r, k) + acc.c
                         IN TLCEval([ok |-> d % 4096 = 0, c |-> d \div 4096]),
                 [ok |-> TRUE, c |-> 0], [k \in 1..len |-> k])
    IN end.ok /\ end.c = 0
\* x^65537 = y modulo n: xs = x^2, x^4, .., x^65536, y with the quotients qs
PowIs(x, n, xs, qs, y) ==
    LET N == Limbs(n)
        L == TLCEval(<<Limbs(x)>> \o [i \in DOMAIN xs |-> Limbs(xs[i])])
        Q == TLCEval([i \in DOMAIN qs |-> Limbs(qs[i])])
    IN /\ Len(xs) = 17 /\ Len(qs) = 17
       /\ xs[17] = y
       /\ \A i \in 1..16 : MulModIs(L[i], L[i], N, Q[i], L[i + 1])
       /\ MulModIs(L[17], L[1], N, Q[17], L[18])

Xor8(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]
Mgf1(seed, len) == SubSeq(FoldLeft(LAMBDA acc, c : acc \o TLCEval(Sha256(seed \o <<0, 0, 0, c>>)), <<>>,
                                   [i \in 1..((len + 31) \div 32) |-> i - 1]), 1, len)
\* the message in an OAEP encoding, or <<>>
RECURSIVE AfterOne(_, _)
AfterOne(db, i) == IF i > Len(db) THEN <<>> ELSE IF db[i] = 0 THEN AfterOne(db, i + 1)
                   ELSE IF db[i] = 1 THEN <<SubSeq(db, i + 1, Len(db))>> ELSE <<>>
OaepOpen(em, label) ==
    LET k == Len(em)
        ms == SubSeq(em, 2, 33)
        mdb == SubSeq(em, 34, k)
        seed == TLCEval(Xor8(ms, Mgf1(mdb, 32)))
        db == TLCEval(Xor8(mdb, Mgf1(seed, k - 33)))
    IN IF k < 66 \/ em[1] # 0 \/ SubSeq(db, 1, 32) # Sha256(label) THEN <<>> ELSE AfterOne(db, 33)
\* EMSA-PKCS1-v1_5 of a message, k bytes
DigestInfo == <<48, 49, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0, 4, 32>>
Pkcs1(msg, k) == <<0, 1>> \o [i \in 1..(k - 54) |-> 255] \o <<0>> \o DigestInfo \o Sha256(msg)
\* EMSA-PSS with SHA-256, MGF1 and the longest salt: em, of a modulus whose first byte is top, encodes the message
TopBits(b) == IF b >= 128 THEN 8 ELSE IF b >= 64 THEN 7 ELSE IF b >= 32 THEN 6 ELSE IF b >= 16 THEN 5 ELSE IF b >= 8 THEN 4
              ELSE IF b >= 4 THEN 3 ELSE IF b >= 2 THEN 2 ELSE 1
PssIs(em0, top, msg) ==
    LET bits == TopBits(top) - 1                         \* bits of the first byte of the encoding (0: it has one byte less)
        em == IF bits = 0 THEN Tail(em0) ELSE em0
        l == Len(em)
        first == IF bits = 0 THEN 8 ELSE bits
        lim == <<2, 4, 8, 16, 32, 64, 128, 256>>[first]
        h == SubSeq(em, l - 32, l - 1)
        db0 == TLCEval(Xor8(SubSeq(em, 1, l - 33), Mgf1(h, l - 33)))
        db == TLCEval([db0 EXCEPT ![1] = @ % lim])
        salt == SubSeq(db, 2, l - 33)
    IN /\ bits = 0 => em0[1] = 0
       /\ em[l] = 188 /\ em[1] < lim
       /\ db[1] = 1
       /\ h = Sha256([i \in 1..8 |-> 0] \o Sha256(msg) \o salt)
\* the SubjectPublicKeyInfo of a key with modulus n (no leading zero byte) and exponent 65537, in DER
DerLen(l) == IF l < 128 THEN <<l>> ELSE IF l < 256 THEN <<129, l>> ELSE <<130, l \div 256, l % 256>>
Der(t, v) == <<t>> \o DerLen(Len(v)) \o v
RsaOid == Der(48, <<6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 1>> \o <<5, 0>>)
Spki(n) == Der(48, RsaOid \o Der(3, <<0>> \o Der(48, Der(2, (IF n[1] > 127 THEN <<0>> ELSE <<>>) \o n) \o Der(2, <<1, 0, 1>>))))
KeyIdOf(n) == Sha256(Spki(n))
=============================================================================
