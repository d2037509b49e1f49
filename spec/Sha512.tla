------------------------------- MODULE Sha512 --------------------------------
(* SHA-512 and SHA-384 (FIPS 180-4). A 64-bit word is a tuple of four 16-bit   *)
(* parts, the most significant first.                                          *)
EXTENDS Naturals, Sequences, Bitwise, TLC
LOCAL INSTANCE SequencesExt

LXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
LAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
LNot(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
LAdd(a, b) == LET d == a[4] + b[4]
                  c == a[3] + b[3] + (d \div 65536)
                  e == a[2] + b[2] + (c \div 65536)
              IN <<(a[1] + b[1] + (e \div 65536)) % 65536, e % 65536, c % 65536, d % 65536>>
LP2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
\* rotate and shift right by n, which is no multiple of 16
LTurn(a, k) == [j \in 1..4 |-> a[((j - 1 - k) % 4) + 1]]
LRotS(a, n) == LET p == LP2[n] q == 65536 \div p
               IN <<(a[1] \div p) + (a[4] % p) * q, (a[2] \div p) + (a[1] % p) * q, (a[3] \div p) + (a[2] % p) * q, (a[4] \div p) + (a[3] % p) * q>>
LRot(a, n) == IF n < 16 THEN LRotS(a, n) ELSE LRotS(LTurn(a, n \div 16), n % 16)
LShr(a, n) == LET p == LP2[n] q == 65536 \div p
              IN <<a[1] \div p, (a[2] \div p) + (a[1] % p) * q, (a[3] \div p) + (a[2] % p) * q, (a[4] \div p) + (a[3] % p) * q>>
LS0(x) == LXor(LXor(LRot(x, 28), LRot(x, 34)), LRot(x, 39))
LS1(x) == LXor(LXor(LRot(x, 14), LRot(x, 18)), LRot(x, 41))
LG0(x) == LXor(LXor(LRot(x, 1), LRot(x, 8)), LShr(x, 7))
LG1(x) == LXor(LXor(LRot(x, 19), LRot(x, 61)), LShr(x, 6))
LCh(x, y, z) == LXor(LAnd(x, y), LAnd(LNot(x), z))
LMaj(x, y, z) == LXor(LXor(LAnd(x, y), LAnd(x, z)), LAnd(y, z))

LK == <<
  <<17034, 12184, 55080, 44578>>, <<28983, 17553, 9199, 26061>>, <<46528, 64463, 60493, 15151>>,
  <<59829, 56229, 33161, 56252>>, <<14678, 49755, 62280, 46392>>, <<23025, 4593, 46597, 53273>>,
  <<37439, 33444, 44825, 20379>>, <<43804, 24277, 55917, 33048>>, <<55303, 43672, 41731, 578>>,
  <<4739, 23297, 17776, 28606>>, <<9265, 34238, 20196, 45708>>, <<21772, 32195, 54783, 46306>>,
  <<29374, 23924, 62075, 35183>>, <<32990, 45566, 15126, 38577>>, <<39900, 1703, 9671, 4661>>,
  <<49563, 61812, 53097, 9876>>, <<58523, 27073, 40689, 19154>>, <<61374, 18310, 14415, 9699>>,
  <<4033, 40390, 35724, 54709>>, <<9228, 41420, 30636, 40037>>, <<11753, 11375, 22827, 629>>,
  <<19060, 33962, 28326, 58499>>, <<23728, 43484, 48449, 64468>>, <<30457, 35034, 33553, 21429>>,
  <<38974, 20818, 61030, 57259>>, <<43057, 50797, 11700, 12816>>, <<45059, 10184, 39163, 8511>>,
  <<48985, 32711, 48879, 3812>>, <<50912, 3059, 15784, 36802>>, <<54695, 37191, 37642, 42789>>,
  <<1738, 25425, 57347, 33391>>, <<5161, 10599, 2574, 28272>>, <<10167, 2693, 18130, 12284>>,
  <<11803, 8504, 23590, 51494>>, <<19756, 28156, 23236, 10989>>, <<21304, 3347, 40341, 46047>>,
  <<25866, 29524, 35759, 25566>>, <<30314, 2747, 15479, 45736>>, <<33218, 51502, 18413, 44774>>,
  <<37490, 11397, 5250, 13627>>, <<41663, 59553, 19697, 868>>, <<43034, 26187, 48194, 12289>>,
  <<49739, 35696, 53496, 38801>>, <<51052, 20899, 1620, 48688>>, <<53650, 59417, 55023, 21016>>,
  <<54937, 1572, 21861, 43280>>, <<62478, 13701, 22385, 8234>>, <<4202, 41072, 12987, 53688>>,
  <<6564, 49430, 47314, 53448>>, <<7735, 27656, 20801, 43859>>, <<10056, 30540, 57230, 60313>>,
  <<13488, 48309, 57755, 18600>>, <<14620, 3251, 50633, 23139>>, <<20184, 43594, 58177, 35531>>,
  <<23452, 51791, 30563, 58227>>, <<26670, 28659, 54962, 47267>>, <<29839, 33518, 24047, 45820>>,
  <<30885, 25455, 17175, 12128>>, <<33992, 30740, 41456, 43890>>, <<36039, 520, 6756, 14828>>,
  <<37054, 65530, 9059, 7720>>, <<42064, 27883, 56962, 48617>>, <<48889, 41975, 45766, 30997>>,
  <<50801, 30962, 58226, 21291>>, <<51751, 16078, 59942, 24988>>, <<53638, 47303, 8640, 49671>>,
  <<60122, 32214, 52704, 60190>>, <<62845, 20351, 61038, 53624>>, <<1776, 26538, 29207, 28602>>,
  <<2659, 32197, 41672, 39078>>, <<4415, 38916, 48889, 3502>>, <<7025, 2869, 4892, 18203>>,
  <<10459, 30709, 8964, 32132>>, <<13002, 43899, 16583, 9363>>, <<15518, 48650, 5577, 48828>>,
  <<17181, 26564, 39952, 3404>>, <<19653, 54462, 52030, 17078>>, <<22911, 10652, 64613, 32298>>,
  <<24523, 28587, 15062, 64236>>, <<27716, 6540, 19015, 22551>>
>>
H512 == <<
  <<27145, 58983, 62396, 51464>>, <<47975, 44677, 33994, 42811>>, <<15470, 62322, 65172, 63531>>, <<42319, 62778, 24349, 14065>>,
  <<20750, 21119, 44518, 33489>>, <<39685, 26764, 11070, 27679>>, <<8067, 55723, 64321, 48491>>, <<23520, 52505, 4990, 8569>>>>
H384 == <<
  <<52155, 40285, 49413, 40664>>, <<25242, 10538, 13948, 54535>>, <<37209, 346, 12400, 56599>>, <<5423, 60632, 63246, 22841>>,
  <<26419, 9831, 65472, 2865>>, <<36532, 19079, 26712, 5393>>, <<56076, 11789, 25849, 36775>>, <<18357, 18461, 48890, 20388>>>>

LPad(b) == LET n == Len(b)
               z == (239 - (n % 128)) % 128
               bits == n * 8
           IN b \o <<128>> \o [j \in 1..(z + 12) |-> 0] \o
              <<bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>
LSched(w0) == FoldLeft(LAMBDA w, t : Append(w, LAdd(LAdd(LG1(w[t-2]), w[t-7]), LAdd(LG0(w[t-15]), w[t-16]))), w0, [k \in 1..64 |-> k + 16])
LRound(s, kw) ==
    LET t1 == TLCEval(LAdd(LAdd(LAdd(s[8], LS1(s[5])), LAdd(LCh(s[5], s[6], s[7]), kw[1])), kw[2]))
        t2 == TLCEval(LAdd(LS0(s[1]), LMaj(s[1], s[2], s[3])))
    IN TLCEval(<<LAdd(t1, t2), s[1], s[2], s[3], LAdd(s[4], t1), s[5], s[6], s[7]>>)
LBlock(h, b, o) ==
    LET at(j, k) == b[o + 8*j - 7 + 2*k] * 256 + b[o + 8*j - 6 + 2*k]
        w == TLCEval(LSched(TLCEval([j \in 1..16 |-> <<at(j, 0), at(j, 1), at(j, 2), at(j, 3)>>])))
        s == TLCEval(FoldLeft(LRound, h, TLCEval([j \in 1..80 |-> <<LK[j], w[j]>>])))
    IN TLCEval([j \in 1..8 |-> LAdd(h[j], s[j])])
LBlocks(h0, b) == FoldLeft(LAMBDA h, k : LBlock(h, b, 128 * (k - 1)), h0, [k \in 1..(Len(b) \div 128) |-> k])
LDigest(h0, msg) ==
    LET h == TLCEval(LBlocks(h0, TLCEval(LPad(msg))))
    IN FlattenSeq([j \in 1..8 |-> FlattenSeq([k \in 1..4 |-> <<h[j][k] \div 256, h[j][k] % 256>>])])
Sha512(msg) == LDigest(H512, msg)
Sha384(msg) == SubSeq(LDigest(H384, msg), 1, 48)
=============================================================================
