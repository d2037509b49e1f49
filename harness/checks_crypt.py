"""P14, P15, P16: encryption, key wrapping, key histories (spec/AeadSys.tla, Aes.tla, AeadCheck.tla, KeyStore.tla, KeyCheck.tla)."""
from publish import *
import wirecases as wc
from ccnpy.crypto.AeadKey import AeadKey
from ccnpy.flic.ManifestFactory import ManifestFactory
from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
from ccnpy.flic.RsaOaepCtx.RsaOaepImpl import RsaOaepImpl
from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
from ccnpy.flic.tree.DecryptorCache import DecryptorCache


def rparams(r):
    return dict(ccm=r.random() < 0.5, key=wc.rbytes(r, r.choice([16, 32])), kn=wc.rnum(r),
                salt=[] if r.random() < 0.4 else [list(r.choice([0, 1, 0x01020304, 0xffffffff, 256, r.randrange(1 << 32)]).to_bytes(4, 'big'))],
                kdf=[] if r.random() < 0.7 else [dict(alg=num(r.choice([1, 3])), info=wc.ropt(r, lambda: wc.rbytes(r, r.randrange(20) if r.random() < 0.8 else r.randrange(100, 300))))])


def b_params(p):
    kdf = b_kdf_(p['kdf'][0]) if p['kdf'] else None
    return AeadParameters(key=(AeadCcm if p['ccm'] else AeadGcm)(bytes(p['key'])), key_number=KeyNumber(denum(p['kn'])),
                          aead_salt=int.from_bytes(bytes(p['salt'][0]), 'big') if p['salt'] else None, kdf_data=kdf)


def b_kdf_(k):
    return KdfData(KdfAlg(denum(k['alg'])), deopt(lambda i: KdfInfo(list(i)), k['info']))


def rplain(r, big=0.1):
    while True:
        n = wc.rnode(r, False)
        if r.random() >= big:
            n['hgs'] = [dict(h, ptrs=h['ptrs'][:2]) for h in n['hgs'][:2]]
            if n['nd'] and (n['nd'][0]['ncs'] or n['nd'][0]['vend']) and r.random() < 0.7:
                n['nd'][0].update(ncs=n['nd'][0]['ncs'][:1], vend=[])
        if len(b_node(n).serialize()) < 1400:           # (AES is computed by TLC; larger ones are in P01-P08)
            return n


def b_node_(a):
    return Manifest.deserialize(arr(by(BUILD['manifest'](dict(ctx=[], node=[a], enc=[], tag=[])).serialize()))).node()


def seal(params, node, how):
    if how == 0:
        return AeadImpl(params).create_encrypted_manifest(node)
    enc = AeadEncryptor(params)
    if how == 1:
        ctx, e, tag = enc.encrypt(node)
        return Manifest(security_ctx=ctx, node=e, auth_tag=tag)
    o = ManifestTreeOptions(name=Name.from_uri('ccnx:/a'), schema_type=SchemaType.HASHED, signer=None, manifest_encryptor=enc, max_packet_size=65000)
    return Manifest.from_content_object(ManifestFactory(o).build_packet(node).body())


def open_with(params, b, how):
    m = Manifest.deserialize(arr(b))
    d = AeadDecryptor(params) if how % 2 else AeadImpl(params)
    if how < 2:
        return d.decrypt_node(m.security_ctx(), m.node(), m.auth_tag())
    return d.decrypt_manifest(m).node()


def vary(r, p):
    """other parameters"""
    q = json.loads(json.dumps(p))
    k = r.choice(['key', 'key', 'ccm', 'salt', 'salt', 'kn', 'len'])
    if k == 'key':
        q['key'][r.randrange(len(q['key']))] ^= 1 << r.randrange(8)
    elif k == 'ccm':
        q['ccm'] = not q['ccm']
    elif k == 'len':
        q['key'] = q['key'][:16] if len(q['key']) == 32 else q['key'] * 2
    elif k == 'kn':
        q['kn'] = wc.rnum(r)
    elif not q['salt']:
        q['salt'] = [[0, 0, 0, r.randrange(2)]]
    elif r.random() < 0.3:
        q['salt'] = []
    else:
        q['salt'][0][r.randrange(4)] ^= 1 << r.randrange(8)
    return q


def el(t, v):
    return list(t.to_bytes(2, 'big')) + list(len(v).to_bytes(2, 'big')) + list(v)


def damage(r, b):
    """another sealed manifest of the same wire format"""
    b = list(b)
    x = r.random()
    parts = parse_tlvs(bytes(b))
    if x < 0.6:
        k = r.randrange(3)
        t, o, v = parts[k]
        i = o + r.randrange(4 + len(v))
        b[i] ^= 1 << r.randrange(8)
    elif x < 0.7:
        i = r.randrange(len(b))
        v = r.randrange(256)
        b[i] = v if b[i] != v else v ^ 1
    else:
        (t0, _, ctx), (t1, _, enc), (t2, _, tag) = parts
        ctx, enc, tag = list(ctx), list(enc), list(tag)
        k = r.randrange(9)
        if k == 8:
            enc = []
        elif k == 0:
            tag = tag[:r.choice([0, 4, 8, 12, 15])]
        elif k == 1:
            tag = tag + wc.rbytes(r, r.choice([1, 16]))
        elif k == 2 and enc:                    # the border between ciphertext and tag
            enc, tag = enc[:-1], enc[-1:] + tag
        elif k == 3:
            enc, tag = enc + tag[:1], tag[1:]
        elif k == 4 and enc:
            enc = enc[:-1] if r.random() < 0.5 else enc[1:]
        elif k == 5:
            enc = enc + [0]
        elif k == 6 and len(enc) > 16:
            enc = enc[16:] + enc[:16]
        else:
            tag = wc.rbytes(r, 16)
        b = el(t0, ctx) + el(t1, enc) + el(t2, tag)
    return b


def aead_case(j, r, tries, p=None):
    p = p or rparams(r)
    a = rplain(r)
    rec = dict(t='enc', id=f"{j} {'ccm' if p['ccm'] else 'gcm'}{len(p['key'])} {'salt' if p['salt'] else ''} {'kdf' if p['kdf'] else ''}",
               p=p, node=a, bytes=[], tries=[])
    ok, b = attempt(lambda: by(seal(b_params(p), b_node_(a), r.randrange(3)).serialize()))
    if not ok:
        rec['id'] += f' {ename(b)} {b}'
        return rec
    rec['bytes'] = b

    def trial(q, c):
        ok, n = attempt(lambda: open_with(b_params(q), c, r.randrange(4)))
        ok2, n = attempt(p_node, n) if ok else (False, None)
        rec['tries'].append(dict(p=q, bytes=c, ok=ok, node=[n] if ok2 else []))
    trial(p, b)
    if len(parse_tlvs(bytes(b))) == 3:
        for _ in range(tries):
            if r.random() < 0.35:
                trial(vary(r, p), b)
            else:
                trial(p, damage(r, b))
        trial(p, b)
    return rec


NONCES = '''
import sys, random
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
random.seed(7)
from checks_crypt import *
n = int(sys.argv[3])
out = []
for salt in ([], [[1, 2, 3, 4]]):
    for ccm in (False, True):
        p = dict(ccm=ccm, key=list(range(16)), kn=[5], salt=salt, kdf=[])
        node = b_node_(dict(nd=[], hgs=[dict(gd=[], ptrs=[])], pad=[]))
        for k in range(n):
            m = AeadImpl(b_params(p)).create_encrypted_manifest(node)
            out.append(p_ctx(m.security_ctx())['nonce'] + [7] * len(salt))
print(json.dumps(out), file=sys.__stdout__)
'''


def nonce_uses(chk):
    """nonces of many encryptors of the same keys, in this process, in forked children and in other processes"""
    r = chk.rng
    uses = []
    ps = [rparams(r) for _ in range(4)]
    for p in ps:
        p['key'] = list(range(len(p['key'])))
    node = b_node_(dict(nd=[], hgs=[dict(gd=[], ptrs=[])], pad=[]))
    w = b_params(dict(ps[0], salt=[[0, 0, 0, 9]]))
    shared = [AeadEncryptor(b_params(p)) for p in ps] + [RsaOaepEncryptor(rsakey('wrap.pub'), w)]

    def use(e):
        ctx = e.encrypt(node)[0]
        return p_ctx(ctx)['nonce']
    rnd = random.getstate()
    for j in range(chk.pick(4000, 40000)):
        if j % 50 == 0:
            random.seed(1)                           # a generator that starts again must not matter
        e = shared[j % len(shared)] if r.random() < 0.6 else AeadEncryptor(b_params(ps[j % len(ps)]))
        uses.append(use(e))
    random.setstate(rnd)
    for c in range(3):                               # children that start from the same memory
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                with os.fdopen(wr, 'w') as f:
                    f.write(json.dumps([use(e) for e in shared for _ in range(40)]))
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as f:
            t = f.read()
        os.waitpid(pid, 0)
        uses += json.loads(t) if t else []
    chk.count('forked', 3)
    for c in range(3):
        p = subprocess.run([sys.executable, '-c', NONCES, REPO, os.path.dirname(os.path.abspath(__file__)), '40'], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
        if p.returncode == 0:
            uses += json.loads(p.stdout)
        else:
            chk.violation('nonce-process', dict(err=p.stderr[-500:]), 'encrypting in another process failed: ' + p.stderr[-200:])
    for bits in (96, 64, 128):
        n = AeadKey.nonce(bits)
        if len(n) != bits // 8:
            chk.violation('nonce-length', dict(bits=bits, len=len(n)), f'nonce({bits}) has {len(n)} bytes')
    return dict(t='nonces', id=f'{len(uses)} nonces', uses=uses)


def many_nonces(chk):
    """so many encryptions under one key that nonces which vary in 32 bits only would meet"""
    p = rparams(chk.rng)
    p.update(salt=[], kdf=[])
    node = b_node_(dict(nd=[], hgs=[dict(gd=[], ptrs=[])], pad=[]))
    n = chk.pick(60000, 300000)
    parts = []
    for c in range(4):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                e = AeadEncryptor(b_params(p))
                with os.fdopen(wr, 'w') as f:
                    for _ in range(n):
                        f.write(bytes(e.encrypt(node)[0].nonce().value()).hex() + '\n')
            finally:
                os._exit(0)
        os.close(wr)
        parts.append((pid, rd))
    uses = []
    for pid, rd in parts:
        with os.fdopen(rd) as f:
            uses += f.read().split()
        os.waitpid(pid, 0)
    if len(uses) < 4 * n:
        chk.violation('nonces', dict(got=len(uses)), f'{len(uses)} of {4 * n} encryptions gave a nonce')
    return dict(t='nonces', id=f'{len(uses)} nonces of one key', uses=uses)


def P14(chk):
    r = chk.rng
    chk.model('AeadSys')
    chk.model_breaks('AeadSys', 'AeadSysReset.cfg')
    chk.model('AesTest')
    recs = [nonce_uses(chk), many_nonces(chk)]
    chk.count('nonces', sum(len(x['uses']) for x in recs))
    j = 0
    for ccm in (False, True):
        for kl in (16, 32):
            for salt in ([], [[0, 0, 0, 0]], [[255] * 4], [[1, 2, 3, 4]]):
                for kdf in (0, 1):
                    p = rparams(r)
                    p.update(ccm=ccm, key=wc.rbytes(r, kl), salt=salt, kdf=[dict(alg=num(1), info=[wc.rbytes(r, 5)])] if kdf else [])
                    recs.append(aead_case(f'matrix {j}', r, 16, p))
                    j += 1
    for j in range(chk.pick(400, 5000)):
        recs.append(aead_case(f'random {j}', r, 14))
    # every bit of one manifest per mode
    for j in range(4):
        p = rparams(r)
        p.update(ccm=j > 1, key=wc.rbytes(r, 16 + 16 * (j % 2)))
        rec = aead_case(f'bits {j}', r, 0, p)
        b = rec['bytes']
        for i in range(len(b)) if chk.thorough or len(b) < 150 else range(0, len(b), 2):
            for k in range(8):
                c = list(b)
                c[i] ^= 1 << k
                ok, n = attempt(lambda: open_with(b_params(p), c, k % 4))
                rec['tries'].append(dict(p=p, bytes=c, ok=ok, node=[]))
        recs.append(rec)
    chk.count('decryptions', sum(len(x.get('tries', '')) for x in recs))
    chk.judge('AeadCheck', recs)


# ---- P15, P16 --------------------------------------------------------------
WRAPS = ['wrap', 'wrap2', 'wrap2048', 'other', 'signer']
MODES = {(16, False): 1, (32, False): 2, (16, True): 3, (32, True): 4}


def seal_oaep(r, wkey, params, nodes):
    """bytes of manifests of one tree, the first with the wrapped key"""
    e = RsaOaepEncryptor(wrapping_key=rsakey(wkey + r.choice(['.pub', '.pem'])), params=params)
    res = []
    for i, n in enumerate(nodes):
        if i:
            ctx, enc, tag = e.encrypt(n) if r.random() < 0.5 else e.encrypt(n, include_wrapper=False)
        else:
            ctx, enc, tag = e.encrypt(n, include_wrapper=True)
        res.append(by(Manifest(security_ctx=ctx, node=enc, auth_tag=tag).serialize()))
    return res


def split(b):
    """[context type, [(type, value) of the context], ciphertext, tag]"""
    (_, _, ctx), (_, _, enc), (_, _, tag) = parse_tlvs(bytes(b))
    (t, _, v), = parse_tlvs(ctx)
    return [t, [(x, list(y)) for x, _, y in parse_tlvs(v)], list(enc), list(tag)]


def join(s):
    return el(0, el(s[0], sum((el(t, v) for t, v in s[1]), []))) + el(2, s[2]) + el(3, s[3])


def flip(r, v):
    v = list(v)
    v[r.randrange(len(v))] ^= 1 << r.randrange(8)
    return v


DAMAGES = ['tag', 'node', 'nonce', 'wrapped', 'kn', 'mode', 'kdf', 'keyid', 'otherid', 'hashalg', 'nowrap', 'type', 'otherwrap']


def damage_oaep(r, b, kind, other=None, kn=None, otherid=None):
    """(bytes, what the wrapped key is for then: 'fits', 'not', 'none')"""
    s = split(b)
    get = lambda t: next(i for i, x in enumerate(s[1]) if x[0] == t)
    fits = 'fits'
    if kind == 'tag':
        s[3] = flip(r, s[3])
    elif kind == 'node':
        s[2] = flip(r, s[2])
    elif kind == 'nonce':
        s[1][get(1)] = (1, flip(r, s[1][get(1)][1]))
    elif kind == 'wrapped':
        s[1][get(4)] = (4, flip(r, s[1][get(4)][1]))
        fits = 'not'
    elif kind == 'kn':
        s[1][get(0)] = (0, kn)
        fits = 'not'
    elif kind == 'mode':
        i = get(2)
        s[1][i] = (2, [r.choice([m for m in (1, 2, 3, 4) if m != s[1][i][1][0]])])
        fits = 'not'
    elif kind == 'kdf':
        old = [x for x in s[1] if x[0] == 5]
        new = (5, el(6, [r.choice([1, 3])]) + (el(7, wc.rbytes(r, 4)) if r.random() < 0.7 else []))
        if old and (r.random() < 0.5 or list(old[0][1]) == new[1]):
            s[1].remove(old[0])
        elif old:
            s[1][get(5)] = new
        else:
            s[1].insert(get(9) if any(x[0] == 9 for x in s[1]) else len(s[1]), new)
        fits = 'not'
    elif kind == 'keyid':
        i = get(9)
        v = s[1][i][1]
        s[1][i] = (9, v[:4] + flip(r, v[4:]))
        fits = 'not'
    elif kind == 'otherid':
        s[1][get(9)] = (9, el(1, otherid))
        fits = 'not'
    elif kind == 'hashalg':
        s[1][get(3)] = (3, [2])
    elif kind == 'nowrap':
        s[1] = [x for x in s[1] if x[0] not in (9, 3, 4)]
        fits = 'none'
    elif kind == 'type':
        s[0] = 1 - s[0]
        fits = 'none' if s[0] == 0 else 'fits'
    else:
        o = split(other)
        s[1] = [x for x in s[1] if x[0] not in (9, 3, 4)] + [x for x in o[1] if x[0] in (9, 3, 4)]
        fits = 'not'
    return join(s), fits


class Pool:
    """keys and manifests under random numbers; 1, 2: pre-shared; 3: tree X wrapped with key 1; 4: tree Y wrapped with key 2; 9: of nobody"""

    def __init__(self, r, rich):
        self.r = r
        self.nums = {}
        while len(set(self.nums.values())) < 5:
            self.nums = {i: denum(wc.rnum(r)) for i in (1, 2, 3, 4, 9)}
        self.rsa = r.sample(WRAPS, 3)                        # keys 1, 2, 3
        self.ids = {i: p_hash(rsakey(k + '.pub').keyid())['v'] for i, k in enumerate(self.rsa, 1)}
        self.params = {}                                     # index -> abstract parameters
        for i in (1, 2, 3, 4):
            p = rparams(r)
            p['kn'] = num(self.nums[i])
            if i > 2 and not p['salt']:
                p['salt'] = [wc.rbytes(r, 4)]
            if r.random() < 0.5 and i > 1:                   # nearly the same keys
                p.update(ccm=self.params[1]['ccm'], key=flip(r, self.params[1]['key']))
            self.params[i] = p
            q = vary(r, p)
            while q == p or q['kn'] != p['kn'] or len(q['key']) not in (16, 32) or (i > 2 and not q['salt']):
                q = vary(r, p)
            self.params[10 + i] = q
        self.obj = {i: b_params(p) for i, p in self.params.items()}
        for i in (1, 2, 3, 4):                               # the same key object with another salt
            p, q = self.params[i], self.params[10 + i]
            if p['key'] == q['key'] and p['ccm'] == q['ccm']:
                o = b_params(q)
                self.obj[10 + i] = AeadParameters(key=self.obj[i].key, key_number=o.key_number, aead_salt=o.aead_salt, kdf_data=o.kdf_data)
        self.ms, self.bytes, self.plain, self.idx = [], [], [], {}
        two = lambda: [rplain(r, 0), rplain(r, 0)]
        for i in (1, 2):
            a = rplain(r, 0)
            b = by(seal(self.obj[i], b_node_(a), r.randrange(3)).serialize())
            self.add(f'psk{i}', b, a, dict(kind='aead', kn=i, p=i, intact=True, wrap=[]))
            c = b
            while c == b:
                c = damage(r, b)
            while split_kn(c) != self.nums[i]:
                c = damage(r, b)
            self.add(f'psk{i}damaged', c, a, dict(kind='aead', kn=i, p=i, intact=False, wrap=[]))
        x, y = two(), two()
        X = seal_oaep(r, self.rsa[0], self.obj[3], [b_node_(a) for a in x])
        Y = seal_oaep(r, self.rsa[1], self.obj[4], [b_node_(a) for a in y])
        for t, bs, ps, kn, k in (('X', X, x, 3, 1), ('Y', Y, y, 4, 2)):
            self.add(f'root{t}', bs[0], ps[0], dict(kind='oaep', kn=kn, p=kn, intact=True, wrap=[dict(k=k, fits=True)]))
            self.add(f'child{t}', bs[1], ps[1], dict(kind='oaep', kn=kn, p=kn, intact=True, wrap=[]))
        for t in 'XY':
            for name, kind in (('node', r.choice(['tag', 'node', 'nonce'])), ('wrap', r.choice(['wrapped', 'mode', 'kdf', 'keyid', 'otherid']))):
                self.bad(f'root{t}{name}', f'root{t}', kind)
        if rich:
            for t in ('X', 'Y'):
                for k in DAMAGES:
                    self.bad(f'root{t}-{k}', f'root{t}', k)
                for k in ('tag', 'node', 'nonce', 'kn', 'mode', 'kdf', 'type'):
                    self.bad(f'child{t}-{k}', f'child{t}', k)
            for k in ('tag', 'node', 'nonce', 'kn', 'mode', 'kdf', 'type'):
                self.bad(f'psk2-{k}', 'psk2', k)

    def add(self, name, b, plain, m):
        self.idx[name] = len(self.ms) + 1
        self.ms.append(m)
        self.bytes.append(b)
        self.plain.append(plain)

    def bad(self, name, of, kind):
        i = self.idx[of] - 1
        m = json.loads(json.dumps(self.ms[i]))
        t = of[-1]
        kn = m['kn']
        if kind == 'kn':
            kn = self.r.choice([x for x in self.nums if x != kn])
        b, fits = damage_oaep(self.r, self.bytes[i], kind, other=self.bytes[self.idx['rootY' if t == 'X' else 'rootX'] - 1],
                              kn=num(self.nums[kn]) if kind == 'kn' else None, otherid=self.ids[{'X': 2, 'Y': 1}.get(t, 3)])
        m.update(kn=kn, intact=False)
        if kind == 'otherwrap':
            m['wrap'] = [dict(k={'X': 2, 'Y': 1}[t], fits=False)]
        elif kind == 'otherid' and m['wrap']:
            m['wrap'] = [dict(k={'X': 2, 'Y': 1}[t], fits=False)]
        elif kind == 'keyid' and m['wrap']:
            m['wrap'] = [dict(k=0, fits=False)]
        elif fits == 'none':
            m['wrap'] = []
        elif fits == 'not' and m['wrap']:
            m['wrap'][0]['fits'] = False
        if kind == 'type':
            m['kind'] = 'aead' if m['kind'] == 'oaep' else 'oaep'
            m['wrap'] = [] if m['kind'] == 'aead' else m['wrap']
        self.add(name, b, self.plain[i], m)


def split_kn(b):
    """the key number of the context, or None"""
    try:
        s = split(b)
        v = [x for t, x in s[1] if t == 0]
        return int.from_bytes(bytes(v[0]), 'big') if s[0] == 0 and len(v) == 1 else None
    except (ValueError, IndexError):
        return None


def keys_history(pool, script, r, i, noise=0.15):
    """performs a history with one keystore"""
    ks = InsecureKeystore()
    cache, dec = DecryptorCache(ks), RsaOaepDecryptor(ks)
    ops = []
    names = ['a', 'b', 'ccnx:/key', '']
    touched = set()                    # numbers that were looked up for a tree

    def rsa(n, k, priv):
        ks.add_rsa_key(n, rsakey(pool.rsa[k - 1] + ('.pem' if priv else '.pub')))
        ops.append(dict(op='rsa', n=n, k=k, priv=priv))

    def aes(n, p):
        ks.add_aes_key(pool.obj[p])
        ops.append(dict(op='aes', num=n, p=p))
        added.add(n)
    added = set()

    def opendec(m):
        b = pool.bytes[m - 1]

        def go():
            man = Manifest.deserialize(arr(b))
            ctx = man.security_ctx()
            how = r.randrange(4)
            oaep = pool.ms[m - 1]['kind'] == 'oaep'
            d = cache.get_or_create(ctx) if how < 2 else dec if oaep and how == 2 else DecryptorCache(ks).get_or_create(ctx)
            if r.random() < 0.6:
                return d.decrypt_manifest(man).node()
            return d.decrypt_node(ctx, man.node(), man.auth_tag())
        ok, n = attempt(go)
        ok2, n = attempt(p_node, n) if ok else (False, None)
        touched.add(pool.ms[m - 1]['kn'])
        ops.append(dict(op='dec', m=m, ok=ok, same=bool(ok2 and n == pool.plain[m - 1])))

    def lookup():
        k = r.randrange(4)
        if k == 0:
            n = r.choice(list(pool.nums))
            if n in touched and n not in added:
                return
            ok, v = attempt(ks.get_aes_key, KeyNumber(pool.nums[n]))
            p = next((x for x, o in pool.obj.items() if v is o), 0) if ok else 0
            if ok and not p:
                p = next((x for x, o in pool.obj.items() if attempt(lambda: same_params(v, o)) == (True, True)), 0)
            ops.append(dict(op='getaes', num=n, ok=ok, p=p, nf=not ok and ename(v) == 'KeyNumberNotFoundError'))
        elif k == 1:
            n = r.choice(names + ['nobody'])
            ok, v = attempt(ks.get_rsa, n)
            ops.append(dict(op='getname', n=n, ok=ok, **key_of(v, ok, 'k')))
        elif k == 2:
            k = r.randint(1, 3)
            h = rsakey(pool.rsa[k - 1] + '.pub').keyid()
            ok, v = attempt(ks.get_rsa, r.choice([h, KeyId(h), HashValue.create_sha256(list(pool.ids[k]))]))
            ops.append(dict(op='getid', k=k, ok=ok, **key_of(v, ok, 'gk')))
        else:
            k = r.randint(1, 3)
            ok, v = attempt(ks.get_rsa_pub_key, r.choice([rsakey(pool.rsa[k - 1] + '.pub').keyid(), HashValue.create_sha256(list(pool.ids[k]))]))
            ops.append(dict(op='getpub', k=k, ok=ok, **key_of(v, ok, 'gk')))

    def key_of(v, ok, f):
        if not ok:
            return {f: 0, 'priv': False, 'nf': ename(v) == 'KeyIdNotFoundError'}
        h = p_hash(v.keyid())['v']
        return {f: next((i for i, x in pool.ids.items() if x == h), 0), 'priv': v.has_private_key(), 'nf': False}
    acts = dict(aes1=lambda: aes(1, 1), aes2=lambda: aes(2, 2), aesX=lambda: aes(3, 3), badX=lambda: aes(3, 13), bad1=lambda: aes(1, 11),
                bad2=lambda: aes(2, 12), aesY=lambda: aes(4, 4), badY=lambda: aes(4, 14),
                privW=lambda: rsa(r.choice(names), 1, True), pubW=lambda: rsa(r.choice(names), 1, False),
                privO=lambda: rsa(r.choice(names), 2, True), pubO=lambda: rsa(r.choice(names), 2, False),
                privZ=lambda: rsa(r.choice(names), 3, True), look=lookup)
    for s in script:
        while r.random() < noise:
            lookup()
        if s in acts:
            acts[s]()
        else:
            opendec(pool.idx[s])
    for _ in range(3):
        lookup()
    return dict(t='keys', id=f'keys {i}: {" ".join(script)}', pool=pool.ms, ops=ops)


def same_params(a, b):
    return (a.key.key(), a.key.aead_mode(), a.key_number.value(), a.aead_salt, a.kdf_data) == \
        (b.key.key(), b.key.aead_mode(), b.key_number.value(), b.aead_salt, b.kdf_data)


def P16(chk):
    r = chk.rng
    chk.model('KeyModel')
    chk.model('KeyCache')
    chk.model_breaks('KeyCache', 'KeyCacheKnown.cfg')
    chk.exhaustive = ['all histories of 3 (thorough 4) operations: adding right and wrong AES keys, private and public RSA keys, '
                      'decrypting roots, children, damaged roots, and manifests under pre-shared keys']
    recs = []
    gen = chk.generate('KeyGen', chk.pick('KeyGen.cfg', 'KeyGenBig.cfg'))
    r.shuffle(gen)
    pool = None
    for i, g in enumerate(gen):
        if i % 40 == 0:
            pool = Pool(r, False)
        recs.append(keys_history(pool, g['ops'], r, i, noise=0.1))
    chk.count('enumerated', len(recs))
    adds = ['aes1', 'aes2', 'aesX', 'aesY', 'bad1', 'bad2', 'badX', 'badY', 'privW', 'pubW', 'privO', 'pubO', 'privZ']
    for i in range(chk.pick(300, 4000)):
        if i % 10 == 0:
            pool = Pool(r, True)
        ms = list(pool.idx)
        good = [m for m in ms if pool.ms[pool.idx[m] - 1]['intact']]
        few = r.sample(adds, r.randint(1, 5))
        if r.random() < 0.5:           # about one or two trees
            fam = r.sample([('psk1', 'aes1', 'bad1'), ('psk2', 'aes2', 'bad2'), ('X', 'aesX', 'badX', 'privW', 'pubW'), ('Y', 'aesY', 'badY', 'privO', 'pubO')],
                           r.randint(1, 2))
            few = [a for f in fam for a in f[1:]]
            ms = [m for m in ms if any(f[0] in m for f in fam)]
            good = [m for m in good if m in ms]
        script = []
        for _ in range(r.randint(4, 30)):
            x = r.random()
            script.append(r.choice(few) if x < 0.25 else r.choice(good) if x < 0.7 else r.choice(ms) if x < 0.9 else 'look')
        recs.append(keys_history(pool, script, r, f'long {i}'))
    chk.count('decryptions', sum(o['op'] == 'dec' for x in recs for o in x['ops']))
    chk.count('lookups', sum(o['op'].startswith('get') for x in recs for o in x['ops']))
    chk.judge('KeyCheck', recs, describe=describe_keys)


def describe_keys(r):
    return r['id']


def wrap_case(j, r):
    """one wrapped key, with witnesses of the RSA power"""
    wkey = r.choice(['wrap', 'wrap2', 'wrap', 'wrap2048', 'other'])
    p = rparams(r)
    if not p['salt']:
        p['salt'] = [[0, 0, 0, 0]]
    b = seal_oaep(r, wkey, b_params(p), [b_node_(rplain(r, 0))])[0]
    from cryptography.hazmat.primitives import serialization
    with open(os.path.join(KEYDIR, wkey + '.pem'), 'rb') as f:
        pn = serialization.load_pem_private_key(f.read(), None).private_numbers()
    n, e = pn.public_numbers.n, pn.public_numbers.e
    assert e == 65537
    k = (n.bit_length() + 7) // 8
    c = int.from_bytes(bytes(next((v for t, v in split(b)[1] if t == 4), b'')), 'big')
    em = pow(c, pn.d, n)
    xs, qs, x = [], [], em
    for i in range(17):
        y = x * (x if i < 16 else em)
        q, x = divmod(y, n)
        xs.append(list(x.to_bytes(k, 'big')))
        qs.append(list(q.to_bytes(k, 'big')))
    return dict(t='wrap', id=f'wrap {j} {wkey}', n=list(n.to_bytes(k, 'big')), em=list(em.to_bytes(k, 'big')), xs=xs, qs=qs, man=b, kn=p['kn'],
                mode=MODES[len(p['key']), p['ccm']], kdf=p['kdf'], salt=p['salt'][0], key=p['key'])


def open_case(j, r, every):
    """a keystore with the private key, the AES key, or both; every changed manifest is refused, and the right one opens afterwards"""
    p = rparams(r)
    if not p['salt']:
        p['salt'] = [wc.rbytes(r, 4)]
    wkey = r.choice(['wrap', 'wrap2'])
    node = rplain(r, 0)
    b = seal_oaep(r, wkey, b_params(p), [b_node_(node)])[0]
    q = vary(r, p) if r.random() < 0.5 else dict(p, kn=num(denum(p['kn']) ^ 1))
    q['salt'] = q['salt'] or p['salt']
    o = seal_oaep(r, wkey, b_params(q), [b_node_(node)])[0]
    tries = []

    def trial(c):
        ks = InsecureKeystore()
        x = r.random()
        if x < 0.7:
            ks.add_rsa_key('k', rsakey(wkey + '.pem'))
        if x > 0.6:                                 # the AES key is known, and the private key perhaps
            ks.add_aes_key(b_params(p))
        d = RsaOaepDecryptor(ks)

        def go():
            m = Manifest.deserialize(arr(c))
            return d.decrypt_manifest(m).node() if r.random() < 0.5 else d.decrypt_node(m.security_ctx(), m.node(), m.auth_tag())
        ok, n = attempt(go)
        ok2, n = attempt(p_node, n) if ok else (False, None)
        tries.append(dict(changed=c != b, ok=ok, same=bool(ok2 and n == node)))
    trial(b)
    if every:
        for x in range(len(b)):
            for k in range(8):
                c = list(b)
                c[x] ^= 1 << k
                trial(c)
    else:
        for _ in range(12):
            k = r.choice(DAMAGES)
            ok, c = attempt(damage_oaep, r, b, k, other=o, kn=num(denum(p['kn']) ^ (1 << r.randrange(20))), otherid=p_hash(rsakey('other.pub').keyid())['v'])
            if ok and c[0] != b:
                trial(c[0])
    trial(b)
    return dict(t='open', id=f'open {j} {wkey}', tries=tries)


def P15(chk):
    r = chk.rng
    chk.model('KeyModel')
    chk.model('RsaTest')
    recs = []
    for j in range(chk.pick(24, 300)):
        recs.append(wrap_case(j, r))
    for j in range(chk.pick(300, 3000)):
        recs.append(open_case(j, r, False))
    for j in range(chk.pick(1, 8)):
        recs.append(open_case(f'bits {j}', r, True))
    n = 0
    while n < chk.pick(45, 500):
        c = rconfig(r, schema=('hash', 'prefix', 'seg')[n % 3], enc=[renc_oaep(r)])
        rec = oaep_tree(chk, r, n, c)
        if rec:
            recs.append(rec)
            n += 1
    chk.count('trees', n)
    chk.count('decryptions', sum(len(x.get('tries', '')) for x in recs))
    chk.count('retrievals', sum(len(x.get('rets', '')) for x in recs))
    chk.judge('KeyCheck', recs, describe=describe_keys)


def renc_oaep(r):
    while True:
        e = renc(r, 1)
        if e[0]['oaep']:
            return e[0]


def oaep_tree(chk, r, j, c):
    e = c['enc'][0]
    rec = Recorder()
    data = rfile(r, c, r.choice([1, 2, 4, 7, 9]))
    ok, root = attempt(publish, c, data, rec, seconds=120)
    if not ok:
        return None
    name, h = b_name(c['name']), HashValue.create_sha256(list(phash(rec.events[-1])))
    mans = [list(m) for m in map(manifest_of, rec.events) if m is not None]
    params = aead_params(e)
    wrong = [k for k in ('wrap', 'wrap2', 'wrap2048', 'other') if k != e['wkey']]
    rets = []

    def get(have, ks):
        if c['sign'] == 'rsa':
            ks.add_rsa_key('signer', rsakey('signer.pub'))
        ok, err, sink, _ = retrieve(TreeIO.PacketMemoryReader([Packet.deserialize(arr(b)) for b in rec.events]), name, h, ks)
        rets.append(dict(have=have, ok=ok, exact=sink.bytes() == bytes(data), none=not sink.writes, err='' if ok else ename(err)))
    K = InsecureKeystore
    get('private', K().add_rsa_key('w', rsakey(e['wkey'] + '.pem')))
    get('replaced', K().add_rsa_key('w', rsakey(e['wkey'] + '.pub')).add_rsa_key('w', rsakey(e['wkey'] + '.pem')))
    get('aes', K().add_aes_key(params))
    get('none', K())
    get('public', K().add_rsa_key('w', rsakey(e['wkey'] + '.pub')))
    get('other', K().add_rsa_key('w', rsakey(r.choice(wrong) + '.pem')))
    get('wrong aes', K().add_aes_key(aead_params(e, tag=1)))
    return dict(t='tree', id=f"tree {j} {cid(c)} " + ' '.join(f"{x['have']}:{x['err']}" for x in rets if x['err']), mans=mans, kn=e['kn'], mode=e['mode'],
                kdf=e['kdf'], keyid=p_hash(rsakey(e['wkey'] + '.pub').keyid())['v'], rets=rets)
