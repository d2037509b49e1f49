--------------------------------- MODULE Aes ---------------------------------
(* AES (FIPS 197) with 128 and 256 bit keys, and its authenticated modes GCM    *)
(* (NIST SP 800-38D, 96-bit IV) and CCM (SP 800-38C, 12-byte nonce, 16-byte tag). *)
(* Bytes are numbers; a block is a sequence of 16.                              *)
EXTENDS Naturals, Sequences, Bitwise, TLC
LOCAL INSTANCE SequencesExt

SBoxSeq == <<
  99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118,
  202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
  183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21,
  4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117,
  9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132,
  83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
  208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168,
  81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210,
  205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115,
  96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219,
  224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121,
  231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
  186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138,
  112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158,
  225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223,
  140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22
>>
SBox == [b \in 0..255 |-> SBoxSeq[b + 1]]
Mul2 == [b \in 0..255 |-> (IF b < 128 THEN 2 * b ELSE (2 * b - 256) ^^ 27)]
Mul3 == [b \in 0..255 |-> Mul2[b] ^^ b]
\* the S-box definition: inverse in GF(2^8), then the affine map
GMul(a, b) == LET f[k \in 0..8] == IF k = 0 THEN [a |-> a, b |-> b, r |-> 0]
                    ELSE LET p == f[k - 1] IN [a |-> Mul2[p.a], b |-> p.b \div 2, r |-> IF p.b % 2 = 1 THEN p.r ^^ p.a ELSE p.r]
              IN f[8].r
RotL8(x, k) == LET p == <<1, 2, 4, 8, 16, 32, 64, 128>>[k + 1] IN ((x * p) % 256) + (x * p) \div 256
Affine(x) == ((x ^^ RotL8(x, 1)) ^^ (RotL8(x, 2) ^^ RotL8(x, 3))) ^^ (RotL8(x, 4) ^^ 99)
SBoxRight == /\ SBox[0] = Affine(0)
             /\ \A b \in 1..255 : \E i \in 1..255 : GMul(b, i) = 1 /\ SBox[b] = Affine(i)

XorSeq(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]            \* b at least as long as a
\* ---- key expansion: a sequence of round keys of 16 bytes
Word(w, i) == SubSeq(w, 4 * i - 3, 4 * i)
Sub4(x) == <<SBox[x[1]], SBox[x[2]], SBox[x[3]], SBox[x[4]]>>
Rcon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>
Expand(key) ==
    LET nk == Len(key) \div 4
        total == 4 * (nk + 7)
        step(ws, i) ==                      \* ws: the first i - 1 words
            LET prev == ws[i - 1]
                t == IF (i - 1) % nk = 0
                     THEN LET s == Sub4(<<prev[2], prev[3], prev[4], prev[1]>>) IN <<s[1] ^^ Rcon[(i - 1) \div nk], s[2], s[3], s[4]>>
                     ELSE IF nk > 6 /\ (i - 1) % nk = 4 THEN Sub4(prev) ELSE prev
            IN Append(ws, TLCEval(XorSeq(ws[i - nk], t)))
        ws == FoldLeft(step, [i \in 1..nk |-> Word(key, i)], [i \in 1..(total - nk) |-> nk + i])
    IN [r \in 1..(nk + 7) |-> ws[4 * r - 3] \o ws[4 * r - 2] \o ws[4 * r - 1] \o ws[4 * r]]
\* ---- a block
Shift == <<1, 6, 11, 16, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12>>
SubShift(s) == [i \in 1..16 |-> SBox[s[Shift[i]]]]
Mix(s) == [i \in 1..16 |-> LET c == 4 * ((i - 1) \div 4)
                               r == (i - 1) % 4
                               at(k) == s[c + ((r + k) % 4) + 1]
                           IN (Mul2[at(0)] ^^ Mul3[at(1)]) ^^ (at(2) ^^ at(3))]
Block(rk, b) ==
    LET n == Len(rk)
        round(s, r) == TLCEval(XorSeq(Mix(TLCEval(SubShift(s))), rk[r]))
        s == FoldLeft(round, TLCEval(XorSeq(b, rk[1])), [r \in 1..(n - 2) |-> r + 1])
    IN TLCEval(XorSeq(SubShift(s), rk[n]))

\* ---- helpers of the modes
ZeroBlock == [i \in 1..16 |-> 0]
Blocks(n) == (n + 15) \div 16
BlockOf(x, i) == [j \in 1..16 |-> IF 16 * (i - 1) + j <= Len(x) THEN x[16 * (i - 1) + j] ELSE 0]
Pad16(x) == x \o [i \in 1..((16 - (Len(x) % 16)) % 16) |-> 0]
B3(n) == <<n \div 65536, (n \div 256) % 256, n % 256>>
\* encrypts (and decrypts) with the counter blocks Ctr(1), Ctr(2), ...
CtrMode(rk, x, Ctr(_)) ==
    LET ks == TLCEval([i \in 1..Blocks(Len(x)) |-> Block(rk, Ctr(i))])
    IN [j \in 1..Len(x) |-> x[j] ^^ ks[((j - 1) \div 16) + 1][((j - 1) % 16) + 1]]

\* ---- GCM. An element of GF(2^128): bit 0 is the most significant bit of the first byte
MulX(v) == LET s == [i \in 1..16 |-> (v[i] \div 2) + (IF i > 1 THEN (v[i - 1] % 2) * 128 ELSE 0)]
           IN IF v[16] % 2 = 1 THEN [s EXCEPT ![1] = @ ^^ 225] ELSE s
Pow2 == <<128, 64, 32, 16, 8, 4, 2, 1>>
MulX8(v) == FoldLeft(LAMBDA a, k : TLCEval(MulX(a)), v, <<1, 2, 3, 4, 5, 6, 7, 8>>)
\* what the last byte contributes when it is shifted out (only the first two bytes are not zero)
Red == TLCEval([b \in 0..255 |-> SubSeq(MulX8([ZeroBlock EXCEPT ![16] = b]), 1, 2)])
ByteTable(h) ==         \* b |-> (the element with the first byte b) * h
    LET p == TLCEval(FoldLeft(LAMBDA a, k : Append(a, TLCEval(MulX(a[Len(a)]))), <<h>>, <<1, 2, 3, 4, 5, 6, 7>>))
        f[b \in 0..255] == IF b = 0 THEN ZeroBlock
                           ELSE LET k == CHOOSE k \in 1..8 : Pow2[k] <= b /\ (k = 1 \/ Pow2[k - 1] > b)
                                IN XorSeq(p[k], f[b - Pow2[k]])
    IN TLCEval([b \in 0..255 |-> TLCEval(f[b])])
MulH(t, x) ==
    LET step(z, i) == LET r == Red[z[16]] y == t[x[i]]
                      IN TLCEval([j \in 1..16 |-> CASE j = 1 -> r[1] ^^ y[1]
                                                    [] j = 2 -> (z[1] ^^ r[2]) ^^ y[2]
                                                    [] OTHER -> z[j - 1] ^^ y[j]])
    IN FoldLeft(step, ZeroBlock, <<16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>)
GHash(t, x) == FoldLeft(LAMBDA y, i : TLCEval(MulH(t, XorSeq(y, BlockOf(x, i)))), ZeroBlock, [i \in 1..Blocks(Len(x)) |-> i])
Len64(n) == <<0, 0, 0, 0>> \o <<(8 * n) \div 16777216, ((8 * n) \div 65536) % 256, ((8 * n) \div 256) % 256, (8 * n) % 256>>
\* a block plus k, in its last four bytes
Inc32(b, k) == LET d == b[16] + k
                   c == b[15] + d \div 256
                   e == b[14] + c \div 256
               IN SubSeq(b, 1, 12) \o <<(b[13] + e \div 256) % 256, e % 256, c % 256, d % 256>>
Gcm(key, iv, plain, ad) ==
    LET rk == TLCEval(Expand(key))
        t == TLCEval(ByteTable(Block(rk, ZeroBlock)))
        j0 == TLCEval(IF Len(iv) = 12 THEN iv \o <<0, 0, 0, 1>> ELSE GHash(t, Pad16(iv) \o [i \in 1..8 |-> 0] \o Len64(Len(iv))))
        ctr(i) == Inc32(j0, i)
        c == TLCEval(CtrMode(rk, plain, ctr))
        s == GHash(t, Pad16(ad) \o Pad16(c) \o Len64(Len(ad)) \o Len64(Len(c)))
    IN [ct |-> c, tag |-> XorSeq(s, Block(rk, ctr(0)))]

\* ---- CCM
Ccm(key, nonce, plain, ad) ==
    LET rk == TLCEval(Expand(key))
        q == 15 - Len(nonce)                 \* the length of a number
        bq(i) == IF q = 2 THEN Tail(B3(i)) ELSE [j \in 1..(q - 3) |-> 0] \o B3(i)
        ctr(i) == <<q - 1>> \o nonce \o bq(i)
        b0 == <<(IF ad = <<>> THEN 0 ELSE 64) + 56 + (q - 1)>> \o nonce \o bq(Len(plain))
        a == IF ad = <<>> THEN <<>> ELSE Pad16(<<Len(ad) \div 256, Len(ad) % 256>> \o ad)
        m == b0 \o a \o Pad16(plain)
        mac == FoldLeft(LAMBDA y, i : Block(rk, TLCEval(XorSeq(y, BlockOf(m, i)))), ZeroBlock, [i \in 1..Blocks(Len(m)) |-> i])
    IN [ct |-> CtrMode(rk, plain, ctr), tag |-> XorSeq(mac, Block(rk, ctr(0)))]

Aead(ccm, key, iv, plain, ad) == IF ccm THEN Ccm(key, iv, plain, ad) ELSE Gcm(key, iv, plain, ad)
=============================================================================
