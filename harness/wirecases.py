"""Seeded random abstract packets and manifests (values of spec/Wire.tla), and mutants of encoded bytes."""
from wirebind import num


def rbytes(r, n):
    return [r.randrange(256) for _ in range(n)]


def rnum(r, top=64):
    k = r.choice([0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 56, top - 1, top])
    k = min(k, top)
    if k == 0:
        return num(0)
    return num(r.choice([(1 << k) - 1, 1 << (k - 1), r.randrange(1 << k)]))


def ropt(r, f, p=0.5):
    return [f()] if r.random() < p else []


def rlen(r, big=False):
    return r.choice([0, 1, 2, 3, 4, 5, 8, 16, 31, 32, 100] + ([250, 251, 252, 255, 256, 257, 511, 512, 1000] if big else []))


def rname(r):
    return [dict(t=r.choice([1, 1, 1, 2, 5, 16, 0, 4096, 65535]), v=rbytes(r, rlen(r))) for _ in range(r.choice([0, 1, 2, 3, 4, 4, 15]))]


def rhash(r):
    return dict(a=r.choice([1, 1, 1, 2, 4096, 77]), v=rbytes(r, r.choice([32, 32, 32, 64, 0, 1, 5])))


def rlink(r, named=False):
    return dict(name=ropt(r, lambda: rname(r), 1 if named else 0.6), keyid=ropt(r, lambda: rhash(r)), digest=ropt(r, lambda: rhash(r)))


def rtime(r):
    return num(r.choice([0, 1, 999, 1000, 252800000000000, r.randrange(252800000000000), r.randrange(1 << 31), r.randrange(1 << 41)]))


def rco(r, big=True, odd=0.0):
    return dict(name=ropt(r, lambda: rname(r), 0.7), exp=ropt(r, lambda: rtime(r)), pt=ropt(r, lambda: r.randrange(4) if r.random() >= odd else r.choice([4, 5, 127, 128, 255]), 0.7),
                pl=ropt(r, lambda: rbytes(r, rlen(r, big)), 0.8), fc=ropt(r, lambda: rnum(r)))


def rval(r):
    if r.random() < 0.5:
        return dict(k='crc', keyid=[], time=[], sig=rbytes(r, r.choice([0, 4, 4, 4, 5])))
    return dict(k='rsa', keyid=[rhash(r)], time=[rtime(r)], sig=rbytes(r, r.choice([0, 1, 64, 128, 256, 257, 384, 512, 1000])))


def rpacket(r, big=True):
    return dict(co=rco(r, big, odd=0.07), val=ropt(r, lambda: rval(r)))


def rlocs(r):
    return [rlink(r, True) for _ in range(r.choice([1, 1, 2, 3, 11]))]


def rschema(r):
    k = r.choice(['hash', 'prefix', 'seg'])
    return dict(k=k, name=[] if k == 'hash' else [rname(r)], sfx=[num(r.choice([5, 16, 0, 1, 255, 256, 65535]))] if k == 'seg' else [],
                loc=ropt(r, lambda: rlocs(r)), flags=ropt(r, lambda: rbytes(r, rlen(r)), 0.3))


def rnodedata(r):
    return dict(sts=ropt(r, lambda: rnum(r)), std=ropt(r, lambda: rhash(r), 0.3), loc=ropt(r, lambda: rlocs(r), 0.3),
                ncs=[dict(id=rnum(r), s=rschema(r)) for _ in range(r.choice([0, 1, 2, 3, 3, 12]))],
                vend=[dict(pen=rbytes(r, 3), pl=rbytes(r, rlen(r))) for _ in range(r.choice([0, 0, 1, 2, 17]))])


def rgroupdata(r):
    return dict(sts=ropt(r, lambda: rnum(r)), std=ropt(r, lambda: rhash(r), 0.3), ls=ropt(r, lambda: rnum(r)),
                ld=ropt(r, lambda: rhash(r), 0.3), nc=ropt(r, lambda: rnum(r), 0.8), ssid=ropt(r, lambda: rnum(r, 30)))


def rnode(r, pad=True):
    return dict(nd=ropt(r, lambda: rnodedata(r)),
                hgs=[dict(gd=ropt(r, lambda: rgroupdata(r), 0.8), ptrs=[rhash(r) for _ in range(r.choice([0, 1, 2, 3, 7, 20, 20, 70]))])
                     for _ in range(r.choice([1, 1, 2, 3, 3, 9]))],
                pad=ropt(r, lambda: r.choice([0, 1, 2, 50, 300]), 0.2) if pad else [])


def rctx(r):
    oaep = r.random() < 0.5
    return dict(k='oaep' if oaep else 'aead', kn=rnum(r), nonce=rbytes(r, r.choice([8, 12, 12, 0, 3])), mode=num(r.choice([1, 2, 3, 4])),
                kdf=ropt(r, lambda: dict(alg=rnum(r, 16), info=ropt(r, lambda: rbytes(r, rlen(r))))),
                wrap=ropt(r, lambda: dict(keyid=rhash(r), link=ropt(r, lambda: rlink(r)), alg=num(r.choice([1, 2])),
                                          wk=rbytes(r, r.choice([0, 128, 256, 5])))) if oaep else [])


def rmanifest(r):
    if r.random() < 0.6:
        return dict(ctx=[], node=[rnode(r)], enc=[], tag=[])
    return dict(ctx=[rctx(r)], node=[], enc=[rbytes(r, rlen(r, True))], tag=[rbytes(r, r.choice([16, 16, 0, 4]))])


# ---- mutants -------------------------------------------------------------
def elements(b, lo, hi):
    """(offset, type, length) of the TLVs of b[lo:hi], as far as they are whole"""
    res = []
    while lo + 4 <= hi:
        n = b[lo + 2] * 256 + b[lo + 3]
        if lo + 4 + n > hi:
            break
        res.append((lo, b[lo] * 256 + b[lo + 1], n))
        lo += 4 + n
    return res if lo == hi else []


# containers: path of types (outside in); None: any
def positions(b, lo, hi, depth=0, out=None):
    """every plausible TLV position, nested; leaves whose value looks like TLVs are included (harmless: the judge grades)"""
    if out is None:
        out = []
    for (o, t, n) in elements(b, lo, hi):
        out.append((o, t, n, lo, hi, depth))
        if n >= 4 and depth < 8:
            positions(b, o + 4, o + 4 + n, depth + 1, out)
    return out


def fix_lengths(b, start, chain, delta, packet):
    """adds delta to the length fields of the enclosing TLVs (offsets in chain) and of the packet header"""
    for o in chain:
        n = b[o + 2] * 256 + b[o + 3] + delta
        if not 0 <= n <= 65535:
            return None
        b[o + 2], b[o + 3] = n >> 8, n & 255
    if packet:
        n = b[2] * 256 + b[3] + delta
        if not 0 <= n <= 65535:
            return None
        b[2], b[3] = n >> 8, n & 255
    return b


def chain_of(pos, i):
    o, t, n = pos[i][:3]
    return [p[0] for p in pos if p[0] < o and p[0] + 4 + p[2] >= o + 4 + n and p[5] < pos[i][5]]


def mutants(b, packet, r, limit_each=None):
    """truncations, length changes, element deletion/duplication/insertion/retyping/swap, with and without repaired lengths"""
    res = []
    start = 8 if packet else 0
    pos = positions(b, start, len(b))

    def put(kind, x):
        if x is not None and all(0 <= v < 256 for v in x):
            res.append((kind, x))

    cuts = range(len(b)) if limit_each is None or len(b) <= limit_each else sorted(r.sample(range(len(b)), limit_each))
    for n in cuts:
        put('trunc', b[:n])
        if packet and n >= 8:       # header agrees with the truncated length
            x = list(b[:n]); x[2], x[3] = n >> 8, n & 255
            put('trunc-h', x)
    put('extend', b + [0])
    put('extend', b + [0, 9, 0, 0])
    if packet:
        put('extend-h', fix_lengths(b + [0], 0, [], 1, True))
        put('extend-h', fix_lengths(b + [0, 9, 0, 0], 0, [], 4, True))
        put('extend-h', fix_lengths(b + [0, 1, 0, 0], 0, [], 4, True))
        put('extend-h', fix_lengths(b + [0, 2, 0, 0], 0, [], 4, True))
        for j in range(8):
            for d in (1, 255, 16, 3):
                x = list(b); x[j] = (x[j] + d) % 256; put('header', x)
    for i, (o, t, n, lo, hi, depth) in enumerate(pos):
        ch = chain_of(pos, i)
        for d in (1, -1, 4, -4, 255, 256, 4096):
            m = n + d
            if 0 <= m <= 65535:
                x = list(b); x[o + 2], x[o + 3] = m >> 8, m & 255; put('length', x)
        for t2 in (t + 1, t - 1 if t else 9999, 0x0FFF, 0x0FFE, 9000):
            x = list(b); x[o], x[o + 1] = (t2 >> 8) & 255, t2 & 255; put('retype', x)
        el = b[o:o + 4 + n]
        x = list(b); del x[o:o + 4 + n]; put('delete', fix_lengths(x, start, ch, -len(el), packet))
        x = b[:o] + el + b[o:]; put('dup', fix_lengths(x, start, ch, len(el), packet))
        for ins in ([0x23, 0x45, 0, 0], [0x23, 0x45, 0, 2, 1, 2], [0x0F, 0xFF, 0, 2, 1, 2], [0x0F, 0xFF, 0, 5, 0, 0, 1, 2, 3],
                    [0x0F, 0xFE, 0, 2, 0, 0], [0x0F, 0xFE, 0, 2, 0, 1], [0x23], [0x23, 0x45, 0], [0x23, 0x45, 0, 9, 1]):
            x = b[:o] + ins + b[o:]; put('insert', fix_lengths(x, start, ch, len(ins), packet))
            x = b[:o + 4 + n] + ins + b[o + 4 + n:]; put('insert', fix_lengths(x, start, ch, len(ins), packet))
        # shorten or lengthen the value with repaired outer lengths
        if n:
            x = list(b); del x[o + 4 + n - 1]; put('shorten', fix_lengths(x, start, ch + [o], -1, packet))
        x = b[:o + 4 + n] + [7] + b[o + 4 + n:]; put('lengthen', fix_lengths(x, start, ch + [o], 1, packet))
        if i + 1 < len(pos):
            for j in range(i + 1, len(pos)):
                o2, t2, n2, lo2, hi2, d2 = pos[j]
                if lo2 == lo and hi2 == hi and d2 == depth:
                    put('swap', b[:o] + b[o2:o2 + 4 + n2] + b[o + 4 + n:o2] + el + b[o2 + 4 + n2:])
                    break
    return res
