------------------------------- MODULE Sha256 --------------------------------
(* SHA-256 (FIPS 180-4). A 32-bit word is a pair <<high, low>> of 16-bit       *)
(* halves, because TLC's integers have 32 bits with the sign.                  *)
EXTENDS Naturals, Sequences, Bitwise, TLC
LOCAL INSTANCE SequencesExt

W(h, l) == <<h, l>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
Add(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
P2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
\* rotate and shift right by n (0 < n < 16, or 16 < n < 32)
RotS(a, n) == LET p == P2[n] q == 65536 \div p
              IN <<(a[1] \div p) + (a[2] % p) * q, (a[2] \div p) + (a[1] % p) * q>>
Rot(a, n) == IF n < 16 THEN RotS(a, n) ELSE RotS(<<a[2], a[1]>>, n - 16)
Shr(a, n) == LET p == P2[n] q == 65536 \div p IN <<a[1] \div p, (a[2] \div p) + (a[1] % p) * q>>
S0(x) == WXor(WXor(Rot(x, 2), Rot(x, 13)), Rot(x, 22))
S1x(x) == WXor(WXor(Rot(x, 6), Rot(x, 11)), Rot(x, 25))
G0(x) == WXor(WXor(Rot(x, 7), Rot(x, 18)), Shr(x, 3))
G1(x) == WXor(WXor(Rot(x, 17), Rot(x, 19)), Shr(x, 10))
Ch(x, y, z) == WXor(WAnd(x, y), WAnd(WNot(x), z))
Maj(x, y, z) == WXor(WXor(WAnd(x, y), WAnd(x, z)), WAnd(y, z))

KC == <<
  <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>,
  <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
  <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>,
  <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
  <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>,
  <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
  <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>,
  <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
  <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>,
  <<23452, 51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
  <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>
>>
H0 == <<<<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>>>>

Pad256(b) == LET n == Len(b)
                 z == (119 - (n % 64)) % 64
                 bits == n * 8
             IN b \o <<128>> \o [j \in 1..z |-> 0] \o
                <<0, 0, 0, 0, bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>

\* FoldLeft evaluates its operator on values (a recursive operator would be evaluated lazily)
Sched(w0) == FoldLeft(LAMBDA w, t : Append(w, Add(Add(G1(w[t-2]), w[t-7]), Add(G0(w[t-15]), w[t-16]))), w0, [k \in 1..48 |-> k + 16])
Round(s, kw) ==
    LET t1 == TLCEval(Add(Add(Add(s[8], S1x(s[5])), Add(Ch(s[5], s[6], s[7]), kw[1])), kw[2]))
        t2 == TLCEval(Add(S0(s[1]), Maj(s[1], s[2], s[3])))
    IN TLCEval(<<Add(t1, t2), s[1], s[2], s[3], Add(s[4], t1), s[5], s[6], s[7]>>)
Block(h, b, o) ==
    LET w == TLCEval(Sched(TLCEval([j \in 1..16 |-> <<b[o + 4*j - 3] * 256 + b[o + 4*j - 2], b[o + 4*j - 1] * 256 + b[o + 4*j]>>])))
        s == TLCEval(FoldLeft(Round, h, TLCEval([j \in 1..64 |-> <<KC[j], w[j]>>])))
    IN TLCEval([j \in 1..8 |-> Add(h[j], s[j])])
Blocks(b) == FoldLeft(LAMBDA h, k : Block(h, b, 64 * (k - 1)), H0, [k \in 1..(Len(b) \div 64) |-> k])
\* the digest as 32 bytes
Sha256(msg) ==
    LET h == TLCEval(Blocks(TLCEval(Pad256(msg))))
    IN FlattenSeq([j \in 1..8 |-> <<h[j][1] \div 256, h[j][1] % 256, h[j][2] \div 256, h[j][2] % 256>>])
=============================================================================
