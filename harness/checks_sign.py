"""P13, P25: signatures and checksums (spec/Validation.tla, Crc32c.tla, SignCheck.tla)."""
from publish import *
import wirecases as wc
from ccnpy.core.Packet import Packet as Pk
from ccnpy.core.PacketValidator import PacketValidator
from ccnpy.core.SignatureTime import SignatureTime
from ccnpy.core.Tlv import Tlv
from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c, ValidationAlg_RsaSha256
from ccnpy.core.ValidationPayload import ValidationPayload
from ccnpy.crypto.Crc32c import Crc32cVerifier

KEYS = ['signer', 'other', 'wrap', 'wrap2', 'wrap2048', 'big', 'odd']


def b_co(co):
    return BUILD['packet'](dict(co=co, val=[])).body()


def near_co(r, co):
    """a content object that differs in one field"""
    while True:
        c = json.loads(json.dumps(co))
        f = r.choice(['name', 'exp', 'pt', 'pl', 'fc', 'pl', 'name'])
        if c[f] and r.random() < 0.8:
            if f == 'name':
                n = c[f][0]
                if n and r.random() < 0.8:
                    x = r.choice(n)
                    if x['v'] and r.random() < 0.7:
                        x['v'][r.randrange(len(x['v']))] ^= 1 << r.randrange(8)
                    elif r.random() < 0.5:
                        x['t'] ^= 1
                    else:
                        x['v'].append(0)
                else:
                    n.append(comp(1, ''))
            elif f == 'pt':
                c[f] = [(c[f][0] + r.randint(1, 3)) % 4]
            elif f == 'pl':
                if c[f][0] and r.random() < 0.8:
                    c[f][0][r.randrange(len(c[f][0]))] ^= 1 << r.randrange(8)
                else:
                    c[f][0].append(0)
            elif f == 'exp':
                c[f] = [num(denum(c[f][0]) ^ (1 << r.randrange(40)))]
            else:
                c[f] = [num(denum(c[f][0]) ^ 1)]
        else:
            c[f] = wc.rco(r, False)[f]
        if c != co:
            return c


def covered(co, alg):
    return bytes(by(co.serialize())) + bytes(by(alg.serialize()))


def timeof(t, how):
    ms = denum(t)
    return SignatureTime.parse(Tlv(SignatureTime.class_type(), arr(ms.to_bytes(8, 'big')))) if how % 2 else SignatureTime(ms / 1000)


def near_time(r, t):
    return num(max(0, denum(t) + r.choice([-1, 1, 1000, -1000])) if r.random() < 0.7 else denum(t) ^ (1 << r.randrange(40)))


def validate(v, p):
    ok, e = attempt(v.validate_packet, p)
    return ok


def hist(ops, i, r):
    """performs a history of Validation.tla with real keys"""
    ks = r.sample(KEYS, 2)
    co = wc.rco(r, False)
    time = num(r.randrange(1 << 41))
    timeonly = r.random() < 0.3
    msgs = [(co, time), (co if timeonly else near_co(r, co), near_time(r, time) if timeonly or r.random() < 0.3 else time)]
    if timeonly and msgs[0] == msgs[1]:
        msgs[1] = (co, num(denum(time) + 1))
    store = InsecureKeystore()
    v = PacketValidator(store)
    pk, sig, tries, held = {}, {}, [], []
    val = dict(t='val', id=f'hist {i}', sigs=[], tries=[])
    ids = [p_hash(rsakey(k + '.pub').keyid()) for k in ks]
    for x, op in enumerate(ops, 1):
        def do():
            o = op['op']
            if o == 'add':
                k = ks[op['k'] - 1]
                store.add_rsa_key(r.choice([k, 'x', f'key{x}']), rsakey(k + r.choice(['.pem', '.pub'])))
                held.append(ids[op['k'] - 1])
                return
            body = b_co(msgs[op['m'] - 1][0])
            t = timeof(msgs[op['m'] - 1][1], r.randrange(2))
            if o == 'plain':
                p = Pk.create_content_object(body)
            elif o == 'sum':
                s = Crc32cSigner()
                alg = s.validation_alg()
                sig[x] = s.sign(body.serialize(), alg.serialize())
                p = Pk.create_signed_content_object(body, alg, sig[x])
            elif o == 'sign':
                s = RsaSha256Signer(key=rsakey(ks[op['k'] - 1] + '.pem'))
                alg = s.validation_alg(signature_time=t)
                sig[x] = s.sign(body.serialize(), alg.serialize())
                p = Pk.create_signed_content_object(body, alg, sig[x])
                val['sigs'].append(dict(key=ids[op['k'] - 1], covered=list(covered(body, alg)), sig=by(sig[x].payload())))
            else:
                sig[x] = sig[op['i']]
                alg = ValidationAlg_Crc32c() if op['a'] == 0 else ValidationAlg_RsaSha256(keyid=rsakey(ks[op['a'] - 1] + '.pub').keyid(), signature_time=t)
                p = Pk.create_signed_content_object(body, alg, ValidationPayload(sig[x].payload()))
            pk[x] = p if r.random() < 0.5 else Pk.deserialize(arr(by(p.serialize())))
        ok, e = attempt(do)
        if not ok:
            return e
        todo = list(pk)
        r.shuffle(todo)
        for p in todo:
            ok = validate(v, pk[p])
            tries.append(dict(x=x, p=p, ok=ok))
            if r.random() < 0.3:
                val['tries'].append(dict(store=list(held), bytes=by(pk[p].serialize()), ok=ok))
    return dict(t='hist', id=f'hist {i}', ops=ops, timeonly=timeonly, tries=tries), val


def mutate(r, b, spots, others):
    b = list(b)
    x = r.random()
    if x < 0.55:
        b[r.choice(spots)] ^= 1 << r.randrange(8)
    elif x < 0.7:
        i = r.choice(spots)
        n = r.choice([1, 2, 4, 8])
        for j in range(i, min(i + n, len(b))):
            b[j] = r.randrange(256)
    elif x < 0.78:
        i, j = r.choice(spots), r.choice(spots)
        b[i], b[j] = b[j], b[i]
    elif x < 0.85:                                  # zero or saturate a byte
        b[r.choice(spots)] = r.choice([0, 255])
    else:                                           # the tail (alg and signature) of another packet
        o, cut, ocut = r.choice(others)
        b = b[:cut_of(b)] + list(o[ocut:])
        b[2:4] = list(len(b).to_bytes(2, 'big'))
    return b


def cut_of(b):
    return 8 + 4 + b[10] * 256 + b[11]              # the end of the body


def tamper(j, r, n):
    """packets of a few signers, and damaged and recombined forms of them"""
    ks = r.sample(KEYS, 3)
    held = r.sample(ks, r.choice([1, 2, 3, 2]))
    store = InsecureKeystore()
    for k in held:
        store.add_rsa_key(k, rsakey(k + r.choice(['.pem', '.pub'])))
    v = PacketValidator(store)
    rec = dict(t='val', id=f'tamper {j}', sigs=[], tries=[])
    ids = {k: p_hash(rsakey(k + '.pub').keyid()) for k in ks}
    hs = [ids[k] for k in held]
    made = []
    for k in [None, ks[0], ks[1]] if r.random() < 0.7 else [held[0], held[0]]:
        body = b_co(wc.rco(r, False))
        s = RsaSha256Signer(key=rsakey(k + '.pem')) if k else Crc32cSigner()
        alg = s.validation_alg(signature_time=timeof(num(r.randrange(1 << 41)), r.randrange(2))) if k else s.validation_alg()
        sg = s.sign(body.serialize(), alg.serialize())
        p = Pk.create_signed_content_object(body, alg, sg)
        if k:
            rec['sigs'].append(dict(key=ids[k], covered=list(covered(body, alg)), sig=by(sg.payload())))
        made.append(by(p.serialize()))
    others = [(b, 0, cut_of(b)) for b in made]

    def trial(b):
        def go():
            v.validate_packet(Pk.deserialize(arr(b)))
        ok, e = attempt(go)
        rec['tries'].append(dict(store=hs, bytes=list(b), ok=ok))
    for b in made:
        trial(b)
        spots = list(range(8, len(b)))
        tail = list(range(cut_of(b), len(b)))
        for _ in range(n):
            trial(mutate(r, b, r.choice([spots, tail]), others))
        # a signature of another length
        sig0 = len(b) - 4
        for d in ([], b[-4:][:3], [0] + b[-4:]):
            if b[cut_of(b) + 5] == 2:
                c = b[:sig0 - 2] + list(len(d).to_bytes(2, 'big')) + d
                c[2:4] = list(len(c).to_bytes(2, 'big'))
                trial(c)
    return rec


def forms(j, r):
    """one signature, and other forms of it: without its leading zeros, plus the modulus, with another padding or digest"""
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import padding
    k = ['signer', 'other', 'odd', 'wrap2048', 'wrap'][j % 5]
    key = rsakey(k + '.pem')
    with open(os.path.join(KEYDIR, k + '.pem'), 'rb') as f:
        priv = serialization.load_pem_private_key(f.read(), None)
    n = priv.public_key().public_numbers().n
    ln = (n.bit_length() + 7) // 8
    body = b_co(wc.rco(r, False))
    s = RsaSha256Signer(key=key)
    t = r.randrange(1 << 40)
    for _ in range(3000):                           # one that starts with a zero byte
        alg = s.validation_alg(signature_time=timeof(num(t), 1))
        cov = covered(body, alg)
        sig = bytes(by(key.sign(cov)))
        if sig[0] == 0 or j % 2 == 0 and k != 'odd' or k == 'wrap2048':
            break
        t += 1
    made = s.sign(body.serialize(), alg.serialize())
    kid = p_hash(rsakey(k + '.pub').keyid())
    rec = dict(t='val', id=f'forms {j} {k} {sig[0]}', sigs=[dict(key=kid, covered=list(cov), sig=by(made.payload()))], tries=[])
    v = PacketValidator(InsecureKeystore().add_rsa_key('k', rsakey(k + r.choice(['.pem', '.pub']))))
    x = int.from_bytes(sig, 'big')
    m = 8 * ln

    def raw(em):
        d = priv.private_numbers()
        return pow(int.from_bytes(em, 'big'), d.d, n).to_bytes(ln, 'big')
    import hashlib
    dig = hashlib.sha256(cov).digest()
    info = bytes.fromhex('3031300d060960864801650304020105000420')
    pad = lambda T: b'\0\1' + b'\xff' * (ln - 3 - len(T)) + b'\0' + T
    alts = [sig, bytes(by(made.payload())), sig.lstrip(b'\0'), b'\0' + sig, sig + b'\0', sig[::-1], sig[:-1], sig[1:],
            (x + n).to_bytes(ln + 1, 'big'), (n - x).to_bytes(ln, 'big'), bytes(ln), b'', (1).to_bytes(ln, 'big'), b'\1',
            raw(pad(dig)),                                                        # no digest info
            raw(pad(info[:-4] + info[-2:] + dig) if ln > 60 else pad(dig)),        # no parameters
            raw(b'\0\2' + pad(info + dig)[2:]),                                    # the padding of encryption
            raw(b'\0\1' + b'\xff' * 8 + b'\0' + info + dig + bytes(ln - 11 - len(info + dig)))]   # short padding and garbage
    if (x + n).bit_length() <= m:
        alts.append((x + n).to_bytes(ln, 'big'))
    for h in (hashes.SHA256(), hashes.SHA1(), hashes.SHA384(), hashes.SHA512(), hashes.MD5()):
        if h.name != 'sha256':
            ok, z = attempt(lambda: priv.sign(cov, padding.PKCS1v15(), h))
            alts += [z] if ok else []
        for sl in (padding.PSS.MAX_LENGTH, padding.PSS.DIGEST_LENGTH, 0):
            ok, z = attempt(lambda: priv.sign(cov, padding.PSS(padding.MGF1(h), sl), h))
            alts += [z] if ok else []
    for z in alts:
        p = Pk.create_signed_content_object(body, alg, ValidationPayload(arr(z)))
        b = by(p.serialize())
        ok, e = attempt(lambda: v.validate_packet(Pk.deserialize(arr(b))))
        rec['tries'].append(dict(store=[kid], bytes=b, ok=ok))
    return rec


def rsa_case(j, r):
    """a signed packet, with witnesses of the RSA power of its signature"""
    from cryptography.hazmat.primitives import serialization
    k = (['signer', 'other', 'wrap', 'wrap2048', 'odd', 'signer', 'other', 'odd', 'wrap'] if j else ['big'])[j % 9]
    with open(os.path.join(KEYDIR, k + '.pub'), 'rb') as f:
        n = serialization.load_pem_public_key(f.read()).public_numbers().n
    ln = (n.bit_length() + 7) // 8
    body = b_co(wc.rco(r, False))
    s = RsaSha256Signer(key=rsakey(k + '.pem'))
    alg = s.validation_alg(signature_time=timeof(num(r.randrange(1 << 41)), r.randrange(2)))
    b = by(Pk.create_signed_content_object(body, alg, s.sign(body.serialize(), alg.serialize())).serialize())
    sig = next((v for t, _, v in parse_tlvs(bytes(b[8:])) if t == 4), b'')
    x = x0 = int.from_bytes(sig, 'big')
    xs, qs = [], []
    if x < n:
        for i in range(17):
            q, x = divmod(x * (x if i < 16 else x0), n)
            xs.append(list(x.to_bytes(ln, 'big')))
            qs.append(list(q.to_bytes(ln, 'big')))
    return dict(t='rsa', id=f'rsa {j} {k}', n=list(n.to_bytes(ln, 'big')), xs=xs, qs=qs, key=p_hash(rsakey(k + r.choice(['.pem', '.pub'])).keyid()), bytes=b)


def P13(chk):
    r = chk.rng
    chk.model('Validation')
    chk.model('RsaTest')
    chk.exhaustive = ['all histories of 3 (thorough 4) operations of two signers, a forger and a keystore, with two messages']
    recs = []
    for j, g in enumerate(chk.generate('ValidationGen', chk.pick('ValidationGen.cfg', 'ValidationGenBig.cfg'))):
        x = hist(g['ops'], f'enum {j}', r)
        if isinstance(x, Exception):
            chk.violation('made', dict(ops=g['ops']), f'enum {j}: {ename(x)} {x}')
            continue
        recs += [q for q in x if q['tries']]
    chk.count('enumerated', len(recs))
    for j in range(chk.pick(150, 2500)):
        ops, npk = [], []
        for k in range(r.randint(4, 14)):
            o = r.choice(['sign', 'sign', 'sum', 'plain', 'add', 'forge', 'forge'])
            if o == 'forge' and not npk:
                o = 'sign'
            op = dict(op=o)
            if o in ('sign', 'add'):
                op['k'] = r.randint(1, 2)
            if o != 'add':
                op['m'] = r.randint(1, 2)
            if o == 'forge':
                op.update(i=r.choice(npk), a=r.randint(0, 2))
            if o in ('sign', 'sum', 'forge'):
                npk.append(k + 1)
            ops.append(op)
        x = hist(ops, f'random {j}', r)
        if isinstance(x, Exception):
            chk.violation('made', dict(ops=ops), f'random {j}: {ename(x)} {x}')
            continue
        recs += [q for q in x if q['tries']]
    for j in range(chk.pick(120, 2000)):
        recs.append(tamper(j, r, 12))
    rsa = [rsa_case(j, r) for j in range(chk.pick(16, 200))]
    for j in range(chk.pick(10, 60)):
        recs.append(forms(j, r))
    # every single-bit error of one signed and one checksummed packet
    for k in ('signer', None):
        rec = tamper('bits', r, 0)
        rec['tries'] = []
        body = b_co(dict(name=[uri('a', 'bc')], exp=[num(1700000000123)], pt=[0], pl=[[1, 2, 3, 250]], fc=[num(300)]))
        s = RsaSha256Signer(key=rsakey('signer.pem')) if k else Crc32cSigner()
        alg = s.validation_alg(signature_time=timeof(num(1700000000999), 1)) if k else s.validation_alg()
        sg = s.sign(body.serialize(), alg.serialize())
        b = by(Pk.create_signed_content_object(body, alg, sg).serialize())
        kid = p_hash(rsakey('signer.pub').keyid())
        rec.update(id=f'bits {k}', sigs=[dict(key=kid, covered=list(covered(body, alg)), sig=by(sg.payload()))] if k else [])
        v = PacketValidator(InsecureKeystore().add_rsa_key('signer', rsakey('signer.pub')))
        bits = [(i, j) for i in range(8, len(b)) for j in range(8)]
        for i, j in bits:
            c = list(b)
            c[i] ^= 1 << j
            ok, e = attempt(lambda: v.validate_packet(Pk.deserialize(arr(c))))
            rec['tries'].append(dict(store=[kid], bytes=c, ok=ok))
        for a in range(0, len(rec['tries']), 100):
            recs.append(dict(rec, id=f"{rec['id']} {a}", tries=rec['tries'][a:a + 100]))
    chk.count('validations', sum(len(x['tries']) for x in recs))
    recs += rsa
    chk.count('rsa', len(rsa))
    chk.judge('SignCheck', recs, describe=lambda r: r['id'] + ' ' + json.dumps(r.get('ops', ''))[:250])


# ---- P25 -------------------------------------------------------------------
def crc_rec(j, r, data, tries):
    def split(d):
        n = r.choice([1, 2, 2, 3, 5])
        if len(d) > 32768 and n > 1:                # a short buffer, then a long one
            a = r.randrange(64)
            return [list(d[:a]), list(d[a:])] + [[]] * r.randrange(2)
        cuts = sorted(r.randint(0, len(d)) for _ in range(n - 1))
        return [list(d[a:b]) for a, b in zip([0] + cuts, cuts + [len(d)])]

    def typed(bufs):
        return [r.choice([bytes, arr])(x) for x in bufs]
    bufs = split(data)
    ok, s = attempt(lambda: by(Crc32cSigner().sign(*typed(bufs)).payload()))
    rec = dict(t='crc', id=f'crc {j} {len(data)} bytes', bufs=bufs, sum=s if ok else [], tries=[])
    good = s if ok else [0, 0, 0, 0]
    for k in range(tries):
        d, pl = list(data), list(good)
        x = r.random()
        if x < 0.2:
            pass
        elif x < 0.5 and d:
            bit = r.randrange(8 * len(d))
            for q in range(bit, min(bit + r.choice([1, 1, 2, 8, 24, 31, 32]), 8 * len(d))):
                if q == bit or r.random() < 0.6:
                    d[q // 8] ^= 1 << (q % 8)
        elif x < 0.75 and pl:
            pl[r.randrange(len(pl))] ^= 1 << r.randrange(8)
        else:
            pl = r.choice([pl[::-1], pl[:3], pl + [0], [0] + pl, [], [255 - q for q in pl], [0, 0, 0, 0], pl[2:] + pl[:2]])
        sp = split(d)
        v = r.choice([SHARED, Crc32cVerifier()])
        ok, res = attempt(lambda: v.verify(*typed(sp), validation_payload=ValidationPayload(r.choice([arr, arr, arr])(pl))))
        rec['tries'].append(dict(bufs=sp, pl=pl, ok=ok, res=bool(ok and res)))
    return rec


SHARED = Crc32cVerifier()


def P25(chk):
    r = chk.rng
    chk.model('CrcStream')
    chk.exhaustive = ['checksums of all strings of up to 1 (thorough 2) bytes, every length up to 70 (thorough 300)']
    recs = [crc_rec('e', r, [], 6)]
    recs += [crc_rec('e', r, [a], 1) for a in range(256)]
    if chk.thorough:
        recs += [crc_rec('e', r, [a, b], 1) for a in range(256) for b in range(0, 256, 3)]
    for n in range(2, chk.pick(70, 300)):
        recs.append(crc_rec('l', r, wc.rbytes(r, n), 8))
    for j in range(chk.pick(500, 6000)):
        n = r.choice([0, 1, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 1500, r.randrange(3000)])
        data = r.choice([lambda: wc.rbytes(r, n), lambda: wc.rbytes(r, n), lambda: [0] * n, lambda: [255] * n, lambda: [r.randrange(256)] * n])()
        recs.append(crc_rec(j, r, data, 10))
    for n in (4096, 8191, 8192, 8193, 33000, 65527, 66000) if not chk.thorough else (4096, 8191, 8192, 8193, 16384, 32768, 32769, 33000, 65527, 65536, 66000, 100000):
        recs.append(crc_rec('big', r, wc.rbytes(r, n), 3))
    # packets: the checksum covers the body followed by the validation algorithm
    for j in range(chk.pick(150, 2000)):
        body = b_co(wc.rco(r, True))
        s = Crc32cSigner()
        alg = s.validation_alg()
        p = Pk.create_signed_content_object(body, alg, s.sign(body.serialize(), alg.serialize()))
        b = by(p.serialize())
        rec = dict(t='val', id=f'packet {j}', sigs=[], tries=[])
        v = PacketValidator(r.choice([None, InsecureKeystore()]))
        for c in [b] + [mutate(r, b, range(8, len(b)), [(b, 0, cut_of(b))]) for _ in range(4)]:
            ok, e = attempt(lambda: v.validate_packet(Pk.deserialize(arr(c))))
            rec['tries'].append(dict(store=[], bytes=list(c), ok=ok))
        recs.append(rec)
    chk.count('verifications', sum(len(x['tries']) for x in recs))
    chk.judge('SignCheck', recs)
