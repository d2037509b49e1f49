-------------------------------- MODULE Hkdf ---------------------------------
(* HMAC (RFC 2104) and HKDF (RFC 5869) with SHA-256, SHA-384 and SHA-512.       *)
EXTENDS Naturals, Sequences, Bitwise, TLC, Sha256, Sha512
LOCAL INSTANCE SequencesExt
Zeros(n) == [i \in 1..n |-> 0]
Digest(alg, m) == CASE alg = 256 -> Sha256(m) [] alg = 384 -> Sha384(m) [] OTHER -> Sha512(m)
BlockLen(alg) == IF alg = 256 THEN 64 ELSE 128
HmacOf(alg, key, msg) == LET n == BlockLen(alg)
                             k0 == IF Len(key) > n THEN Digest(alg, key) ELSE key
                             k == TLCEval(k0 \o Zeros(n - Len(k0)))
                         IN Digest(alg, [i \in 1..n |-> k[i] ^^ 92] \o TLCEval(Digest(alg, [i \in 1..n |-> k[i] ^^ 54] \o msg)))
HkdfOf(alg, salt, ikm, info, len) ==
    LET size == alg \div 8
        prk == TLCEval(HmacOf(alg, IF salt = <<>> THEN Zeros(size) ELSE salt, ikm))
        out == FoldLeft(LAMBDA a, c : LET t == TLCEval(HmacOf(alg, prk, a.t \o info \o <<c>>)) IN [t |-> t, all |-> a.all \o t],
                        [t |-> <<>>, all |-> <<>>], [c \in 1..((len + size - 1) \div size) |-> c])
    IN SubSeq(out.all, 1, len)
Hmac(key, msg) == HmacOf(256, key, msg)
Hkdf(salt, ikm, info, len) == HkdfOf(256, salt, ikm, info, len)
=============================================================================
