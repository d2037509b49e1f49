"""P29: key objects (spec/Keys.tla, KeysCheck.tla, Hkdf.tla, RsaMath.tla, Aes.tla)."""
from publish import *
import hashlib
import wirecases as wc
from ccnpy.crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
from ccnpy.crypto.KDF import KDF

BASE = ['signer', 'other', 'odd', 'wrap2048', 'wrap', 'wrap2']
PWS = {'': None, 'empty': b'', 'p': b'secret', 'q': b'Secret', 'r': b'secret ', 's': bytes(range(1, 90)), 't': b'secret\0more', 'u': b's'}
_text = {}


def text(k, form):
    """the PEM text of a committed key, not through the code"""
    from cryptography.hazmat.primitives import serialization as S
    if (k, form) not in _text:
        with open(os.path.join(KEYDIR, k + '.pem'), 'rb') as f:
            p = S.load_pem_private_key(f.read(), None)
        pem = lambda fmt: p.private_bytes(S.Encoding.PEM, fmt, S.NoEncryption())
        _text[k, form] = {'pub': lambda: p.public_key().public_bytes(S.Encoding.PEM, S.PublicFormat.SubjectPublicKeyInfo),
                          'der': lambda: p.public_key().public_bytes(S.Encoding.DER, S.PublicFormat.SubjectPublicKeyInfo),
                          'n': lambda: p.public_key().public_numbers().n,
                          'pkcs1': lambda: pem(S.PrivateFormat.TraditionalOpenSSL), 'pkcs8': lambda: pem(S.PrivateFormat.PKCS8)}[form]()
    return _text[k, form]


class Shop:
    """key objects of a few key pairs, and what was made with them"""

    def __init__(self, r, dir, names, size, msgs):
        self.r, self.dir, self.names, self.size, self.msgs = r, dir, names, size, msgs
        self.ders = [bytes(text(n, 'der')) for n in names]
        self.ids = [hashlib.sha256(d).digest() for d in self.ders]
        self.objs, self.files, self.sigs, self.boxes, self.ops = [], [], [], [], []

    def who(self, o):
        ok, h = attempt(lambda: bytes(o.keyid().value()))
        ok2, d = attempt(lambda: bytes(o.public_key_der()))
        i = self.ids.index(h) + 1 if ok and h in self.ids else 0
        pub = bool(ok2 and i and d == self.ders[i - 1] and o.has_public_key())
        if pub:
            ok, pem = attempt(o.public_key_pem)
            pub = ok and bytes(pem) == bytes(text(self.names[i - 1], 'pub')) if self.names[i - 1] in BASE + ['big'] else ok
        return dict(id=i, gp=bool(o.has_private_key()), pub=bool(pub))

    def got(self, op, ok, o):
        self.ops.append(dict(op, ok=ok, **(self.who(o) if ok else dict(id=0, gp=False, pub=False))))
        if ok:
            self.objs.append(o)
        return ok

    def make(self, k, form=None):
        form = form or self.r.choice(['pkcs1', 'pkcs8', 'pub'])
        ok, o = attempt(RsaKey, text(self.names[k - 1], form), *self.r.choice([(), (None,), (b'',)]))
        return self.got(dict(op='make', k=k, priv=form != 'pub'), ok, o)

    def gen(self, bits):
        """a new key pair"""
        ok, o = attempt(RsaKey.generate_private_key, bits)
        if ok:
            ok2, d = attempt(lambda: bytes(o.public_key_der()))
            d = d if ok2 else b''
            self.names.append('new')
            self.ders.append(d)
            self.ids.append(hashlib.sha256(d).digest())
            self.size.append((bits + 7) // 8)
            self.got(dict(op='make', k=len(self.names), priv=True), ok, o)
        else:
            self.got(dict(op='make', k=1, priv=True), ok, o)

    def path(self):
        return os.path.join(self.dir, f'key{len(self.files)}.pem')

    def save(self, o, pw):
        p = self.path()
        ok, e = attempt(self.objs[o - 1].save_private_key, p, PWS[pw])
        ok = ok and os.path.exists(p)
        self.ops.append(dict(op='save', o=o, pw=pw, ok=ok))
        if ok:
            self.files.append(p)
        return ok

    def write(self, k, form, o=None):
        p = self.path()
        t = bytes(self.objs[o - 1].public_key_pem()) if o else text(self.names[k - 1], form)
        with open(p, 'wb') as f:
            f.write(t)
        self.files.append(p)
        self.ops.append(dict(op='write', k=k, form='public' if form == 'pub' else 'plain'))

    def load(self, f, pw):
        def go():
            if self.r.random() < 0.7:
                return RsaKey.load_pem_key(self.files[f - 1], PWS[pw]) if PWS[pw] is not None else RsaKey.load_pem_key(self.files[f - 1])
            with open(self.files[f - 1], 'rb') as h:
                return RsaKey(h.read(), PWS[pw])
        ok, o = attempt(go)
        return self.got(dict(op='load', f=f, pw='' if pw == 'empty' else pw), ok, o)

    def bufs(self, m):
        d = self.msgs[m - 1]
        n = self.r.choice([1, 1, 2, 3])
        cuts = sorted(self.r.randint(0, len(d)) for _ in range(n - 1))
        return [self.r.choice([bytes, arr])(d[a:b]) for a, b in zip([0] + cuts, cuts + [len(d)])]

    def sign(self, o, pss, m):
        ok, s = attempt(lambda: self.objs[o - 1].sign(*self.bufs(m), **({'use_pss_padding': pss} if pss or self.r.random() < 0.3 else {})))
        self.ops.append(dict(op='sign', o=o, pad='pss' if pss else 'pkcs1', m=m, ok=ok, len=len(s) if ok else 0))
        if ok:
            self.sigs.append(bytes(by(s)))

    def verify(self, o, s, pss, m, hurt=False):
        z = self.sigs[s - 1]
        if hurt:
            z = self.r.choice([lambda: bytes(flip(self.r, z)), lambda: z[:-1], lambda: z + b'\0', lambda: b'', lambda: b'\0' + z, lambda: z[1:], lambda: bytes(len(z)), lambda: z[::-1]])()
            hurt = z != self.sigs[s - 1]
        ok, v = attempt(lambda: self.objs[o - 1].verify(*self.bufs(m), signature=self.r.choice([bytes, arr])(z), **({'use_pss_padding': pss} if pss or self.r.random() < 0.3 else {})))
        self.ops.append(dict(op='verify', o=o, s=s, pad='pss' if pss else 'pkcs1', m=m, hurt=hurt, ok=ok, res=bool(ok and v)))

    LABELS = [None, b'label', b'Label', b'label\0']

    def seal(self, o, l, m, d):
        ok, c = attempt(self.objs[o - 1].encrypt_oaep_sha256, self.r.choice([bytes, arr])(d), self.LABELS[l])
        self.ops.append(dict(op='seal', o=o, l=l, m=m, len=len(d), ok=ok, out=len(c) if ok else 0))
        if ok:
            self.boxes.append((bytes(by(c)), bytes(d)))

    def open(self, o, b, l, hurt=False):
        c, d = self.boxes[b - 1]
        if hurt:
            c = self.r.choice([lambda: bytes(flip(self.r, c)), lambda: c[:-1], lambda: c[1:], lambda: bytes(len(c))])()
        ok, p = attempt(self.objs[o - 1].decrypt_oaep_sha256, self.r.choice([bytes, arr])(c), self.LABELS[l])
        self.ops.append(dict(op='open', o=o, b=b, l=l, hurt=hurt, ok=ok, same=bool(ok and bytes(by(p)) == d)))

    def all(self, n):
        """verifies and opens everything with everything, or n of these"""
        r = self.r
        todo = [('v', o, s, pss, m) for o in range(len(self.objs)) for s in range(len(self.sigs)) for pss in (False, True) for m in range(len(self.msgs))]
        todo += [('o', o, b, l) for o in range(len(self.objs)) for b in range(len(self.boxes)) for l in range(4)]
        r.shuffle(todo)
        for t in todo[:n]:
            if t[0] == 'v':
                self.verify(t[1] + 1, t[2] + 1, t[3], t[4] + 1, r.random() < 0.1)
            else:
                self.open(t[1] + 1, t[2] + 1, t[3], r.random() < 0.1)
        signs = [o for o in self.ops if o['op'] == 'sign' and o['ok']]        # and the right ones
        for s, e in enumerate(signs, 1):
            self.verify(r.choice([o for o in range(1, len(self.objs) + 1)]), s, e['pad'] == 'pss', e['m'])
            self.verify(e['o'], s, e['pad'] == 'pss', e['m'])
        seals = [o for o in self.ops if o['op'] == 'seal' and o['ok']]
        for b, e in enumerate(seals, 1):
            for o in range(1, len(self.objs) + 1):
                self.open(o, b, e['l'])

    def rec(self, id):
        return dict(t='hist', id=id, size=self.size, ops=self.ops)


def flip(r, v):
    v = list(v)
    v[r.randrange(len(v))] ^= 1 << r.randrange(8)
    return v


def size_of(k):
    return (text(k, 'n').bit_length() + 7) // 8


def near(r, d):
    d = list(d)
    x = r.random()
    if d and x < 0.6:
        return flip(r, d)
    return d + [0] if x < 0.8 or not d else d[:-1]


def shop(chk, r, n=2, pool=None):
    names = r.sample(pool or BASE, n)
    m = wc.rbytes(r, r.choice([0, 1, 40, 300, 70000 if r.random() < 0.02 else 64]))
    return Shop(r, scratch(chk), names, [size_of(k) for k in names], [m, near(r, m)])


def scratch(chk):
    d = os.path.join(chk.dir, 'k')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def rlen(r, size):
    return max(0, min(r.choice([0, 1, 20, 36, size - 66, size - 66, size - 65, size - 64, size - 42, size]), size + 5))


def enumerated(chk, j, ops, r):
    s = shop(chk, r, 2, ['signer', 'other', 'odd', 'wrap'])
    s.make(1, r.choice(['pkcs1', 'pkcs8']))
    s.make(2, r.choice(['pkcs1', 'pkcs8', 'pub']))
    for op in ops:
        last = len(s.objs)
        if op == 'pubA':
            s.write(1, 'pub', 1)
        elif op == 'saveA':
            s.save(1, r.choice(['p', 's', 'u']))
        elif op == 'savePub':
            s.save(r.randint(1, last), 'p')
        elif op in ('load', 'loadWrong', 'loadNone') and s.files:
            f = r.randint(1, len(s.files))
            pws = [o['pw'] if o['op'] == 'save' else '' for o in s.ops if o['op'] == 'write' or o['op'] == 'save' and o['ok']]
            right = pws[f - 1]
            s.load(f, right if op == 'load' else r.choice(['', 'empty']) if op == 'loadNone' else r.choice([p for p in PWS if p not in (right, '', 'empty')]))
        elif op == 'sign':
            s.sign(1, False, r.randint(1, 2))
        elif op == 'pss':
            s.sign(1, True, r.randint(1, 2))
        elif op == 'signLast':
            s.sign(last, r.random() < 0.3, 1)
        elif op == 'seal':
            s.seal(r.randint(1, last), r.randrange(4), 1, wc.rbytes(r, 36))
        elif op == 'genC' and r.random() < 0.2:
            s.gen(1024)
    s.all(10)
    return s.rec(f'enum {j} {" ".join(ops)}')


def history(chk, j, r):
    s = shop(chk, r, 3)
    for k in r.sample([1, 2, 3], r.randint(1, 3)):
        s.make(k)
    if r.random() < 0.1:
        s.gen(r.choice([1024, 1024, 1032, 1536]))
    for _ in range(r.randint(4, 14)):
        o = r.randint(1, len(s.objs)) if s.objs else 0
        if not o:
            s.make(r.randint(1, 3))
            continue
        x = r.choice(['make', 'save', 'write', 'load', 'load', 'load', 'sign', 'sign', 'seal', 'verify', 'open', 'open'])
        if x == 'make':
            s.make(r.randint(1, 3))
        elif x == 'save':
            s.save(o, r.choice(['p', 'q', 'r', 's', 't', 'u']))
        elif x == 'write':
            s.write(r.randint(1, 3), r.choice(['pub', 'pkcs1', 'pkcs8']))
        elif x == 'load' and s.files:
            f = r.randint(1, len(s.files))
            pws = [q['pw'] if q['op'] == 'save' else '' for q in s.ops if q['op'] == 'write' or q['op'] == 'save' and q['ok']]
            s.load(f, pws[f - 1] if r.random() < 0.6 else r.choice(list(PWS)))
        elif x == 'sign':
            s.sign(o, r.random() < 0.4, r.randint(1, 2))
        elif x == 'seal':
            k = s.who(s.objs[o - 1])['id']
            s.seal(o, r.randrange(4), 1, wc.rbytes(r, rlen(r, s.size[k - 1] if k else 128)))
        elif x == 'verify' and s.sigs:
            s.verify(o, r.randint(1, len(s.sigs)), r.random() < 0.4, r.randint(1, 2), r.random() < 0.3)
        elif x == 'open' and s.boxes:
            s.open(o, r.randint(1, len(s.boxes)), r.randrange(4), r.random() < 0.3)
    s.all(12)
    return s.rec(f'history {j}')


def sig_case(j, r):
    """a signature with witnesses of its RSA power"""
    k = (['signer', 'odd', 'other', 'wrap', 'wrap2048'])[j % 5]
    n = text(k, 'n')
    ln = size_of(k)
    msg = wc.rbytes(r, r.choice([0, 1, 55, 64, 130]))
    pss = j % 2 == 0 or j > 12 and r.random() < 0.5
    key = RsaKey(text(k, 'pkcs8'))
    ok, s = attempt(lambda: by(key.sign(*([bytes(msg)] if r.random() < 0.5 else [arr(msg[:7]), arr(msg[7:])]), use_pss_padding=pss)))
    x = x0 = int.from_bytes(bytes(s), 'big') if ok else 0
    xs, qs = [], []
    for i in range(17):
        q, x = divmod(x * (x if i < 16 else x0), n)
        xs.append(list(x.to_bytes(ln, 'big')))
        qs.append(list(q.to_bytes(ln, 'big')))
    return dict(t='sig', id=f'sig {j} {k} {"pss" if pss else ""}', n=list(n.to_bytes(ln, 'big')), xs=xs, qs=qs, pss=pss, msg=msg, sig=s if ok else [])


def aead_case(j, r, tries=14):
    ccm = j % 2 == 1
    key = wc.rbytes(r, 16 if j % 4 < 2 else 32)
    ivl = r.choice([12, 12, 12, 7, 8, 11, 13]) if ccm else r.choice([12, 12, 12, 8, 16, 13, 20])
    iv, ad = wc.rbytes(r, ivl), wc.rbytes(r, r.choice([0, 1, 15, 16, 17, 40, 100, 260]))
    pt = wc.rbytes(r, r.choice([0, 1, 15, 16, 17, 31, 32, 33, 100, 257]))
    cls = lambda c: AeadCcm if c else AeadGcm
    # (associated data is an array in the code that uses it; an iv is bytes or an array)
    forms = lambda: r.choice([bytes, arr])
    k = cls(ccm)(r.choice([bytes, bytes, arr])(key))
    ok, o = attempt(lambda: [by(x) for x in k.encrypt(forms()(iv), forms()(pt), forms()(ad))])
    rec = dict(t='aead', id=f"aead {j} {'ccm' if ccm else 'gcm'}{8 * len(key)} {ivl}", ccm=ccm, key=key, iv=iv, pt=pt, ad=ad, ct=o[0] if ok else [], tag=o[1] if ok else [], tries=[])

    def trial(**ch):
        q = dict(ccm=ccm, key=key, iv=iv, ad=ad, ct=rec['ct'], tag=rec['tag'])
        q.update(ch)
        kk = k if q['key'] == key and q['ccm'] == ccm and r.random() < 0.7 else cls(q['ccm'])(bytes(q['key']))
        ok, p = attempt(lambda: by(kk.decrypt(forms()(q['iv']), forms()(q['ct']), forms()(q['ad']), forms()(q['tag']))))
        rec['tries'].append(dict(q, ok=ok, pt=p if ok else [], refused=not ok and ename(p) == 'DecryptionError'))
    trial()
    for _ in range(tries):
        x = r.randrange(12)
        ct, tag = rec['ct'], rec['tag']
        if x == 0:
            trial(key=flip(r, key))
        elif x == 1 and 7 <= len(iv) <= 13:
            trial(ccm=not ccm) if len(iv) >= 8 else trial(key=flip(r, key))
        elif x == 2:
            trial(iv=flip(r, iv))
        elif x == 3:
            trial(ad=near(r, ad))
        elif x == 4 and ct:
            trial(ct=flip(r, ct))
        elif x == 5:
            trial(tag=flip(r, tag))
        elif x == 6:
            trial(tag=tag[:r.choice([0, 4, 8, 12, 15])])
        elif x == 7 and ct:
            trial(ct=ct[:-1], tag=ct[-1:] + tag)
        elif x == 8:
            trial(ct=ct + tag[:1], tag=tag[1:])
        elif x == 9:
            trial(ct=near(r, ct))
        elif x == 10:
            trial(key=key[:16] if len(key) == 32 else key + key)
        else:
            trial()
    trial()
    return rec


def hkdf_case(j, r):
    ikm = wc.rbytes(r, r.choice([16, 32, 32, 1, 64, 65, 100]))
    salt = None if r.random() < 0.4 else bytes(wc.rbytes(r, r.choice([4, 32, 64, 65])))
    info = None if r.random() < 0.2 else bytes(wc.rbytes(r, r.choice([0, 1, 20, 80])))
    ln = r.choice([16, 32, 1, 33, 64, 96])
    alg = r.choice([256, 384, 512])
    kdf = {256: HpkeKdfIdentifiers.HKDF_SHA256, 384: HpkeKdfIdentifiers.HKDF_SHA384, 512: HpkeKdfIdentifiers.HKDF_SHA512}[alg]
    ok, o = attempt(lambda: list(KDF.derive(kdf, bytes(ikm), ln, info=info, salt=salt)))
    return dict(t='hkdf', id=f'hkdf {alg} {j}', alg=alg, salt=list(salt or b''), ikm=ikm, info=list(info or b''), len=ln, out=o if ok else [])


def P29(chk):
    r = chk.rng
    chk.model('Keys', chk.pick('Keys.cfg', 'KeysBig.cfg'))
    chk.model_breaks('Keys', 'KeysPlain.cfg')
    for m in ('AesTest', 'RsaTest', 'Sha512Test', 'HkdfTest'):
        chk.model(m)
    chk.exhaustive = ['all histories of 2 (thorough 3) operations on two key pairs: publishing, saving, loading with right, wrong and no passwords, signing, sealing, generating']
    recs = []
    gen = chk.generate('KeysGen', chk.pick('KeysGen.cfg', 'KeysGenBig.cfg'))
    for j, g in enumerate(gen):
        recs.append(enumerated(chk, j, g['ops'], r))
    chk.count('enumerated', len(recs))
    for j in range(chk.pick(250, 3000)):
        recs.append(history(chk, j, r))
    chk.count('operations', sum(len(x['ops']) for x in recs))
    for k in BASE + ['big']:
        for form in ('pkcs1', 'pub'):
            o = RsaKey(text(k, form))
            ok, d = attempt(lambda: by(o.public_key_der()))
            ok2, h = attempt(lambda: by(o.keyid().value()))
            recs.append(dict(t='spki', id=f'spki {k} {form}', n=list(text(k, 'n').to_bytes(size_of(k), 'big')), der=d if ok else [], id_=0, **{}))
            recs[-1].pop('id_')
            recs[-1].update(name=recs[-1]['id'], id=h if ok2 else [])
    for j in range(chk.pick(20, 150)):
        recs.append(sig_case(j, r))
    for j in range(chk.pick(160, 2000)):
        recs.append(aead_case(j, r))
    for j in range(chk.pick(30, 400)):
        recs.append(hkdf_case(j, r))
    for mode in (AeadGcm, AeadCcm):
        gens = []
        for bits in [128, 256, 128, 256, 192, 0, 64, 127, 512] * chk.pick(4, 40):
            ok, k = attempt(mode.generate, bits)
            gens.append(dict(bits=bits, ok=ok, len=len(k) if ok else 0, key=by(k.key()) if ok else []))
        recs.append(dict(t='gens', id=f'gens {mode.__name__}', gens=gens))
    chk.judge('KeysCheck', recs, describe=lambda x: str(x.get('name', x['id'])))
