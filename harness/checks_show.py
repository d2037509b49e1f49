"""P28: what packet_reader shows and says (spec/Show.tla, ShowCheck.tla)."""
from publish import *
import re
import wirecases as wc
from checks_cli import tool, key, hexes, kdf_args, PASS
from checks_sign import KEYS, b_co, near_co, timeof, cut_of
from checks_crypt import seal_oaep
from ccnpy.core.ContentObject import ContentObject as Co
from ccnpy.core.Packet import Packet as Pk
from ccnpy.flic.tlvs.KdfAlg import KdfAlg
from ccnpy.flic.tlvs.KdfData import KdfData
from ccnpy.flic.tlvs.KdfInfo import KdfInfo
from ccnpy.flic.tlvs.Manifest import Manifest as Mf

HEX = re.compile(r'(?<![0-9a-fA-F])(?:0x)?((?:[0-9a-f]{2}){4,})(?![0-9a-fA-F])')
WORD = re.compile(r'[0-9A-Za-z]+')


def bare(s):
    return re.sub(r'\s', '', s)


def letters(s):
    return re.sub(r'[^0-9A-Za-z]', '', s)           # the prettifier moves space and drops control characters


def tokens(text, upto=2000):
    text = bare(text)                               # a pretty text has space between digits and letters
    hx = [list(bytes.fromhex(m)) for m in HEX.findall(text)]
    ws = []
    for w in dict.fromkeys(WORD.findall(re.sub(r'\\x[0-9a-f]{2}', ' ', text))):
        if len(w) <= 40:
            ws.append(list(w.encode()))
    return hx[:upto], ws[:upto]


# ---- runs of packet_reader -------------------------------------------------
def text_of(argv):
    """(ended well, error, output) of packet_reader"""
    out = io.StringIO()

    def go():
        with contextlib.redirect_stdout(out):
            ok, e = run_tool(argv)
            if not ok:
                raise e
    ok, e = attempt(go, seconds=60)
    return ok, e, out.getvalue()


def run_tool(argv):
    import importlib
    import logging
    from unittest import mock
    m = importlib.import_module('ccnpy.apps.packet_reader')
    level = logging.getLogger().level
    try:
        with mock.patch.object(sys, 'argv', ['packet_reader'] + argv), limit(50):
            m.run()
            return True, None
    except (Exception, SystemExit) as e:
        return False, e
    finally:
        logging.getLogger().setLevel(level)


def signed(r, co):
    """packet bytes of a content object, and the RSA signatures that were made"""
    x = r.random()
    body = b_co(co)
    if x < 0.3:
        return by(Pk.create_content_object(body).serialize()), [], None
    k = r.choice(KEYS) if x < 0.8 else None
    s = RsaSha256Signer(key=rsakey(k + '.pem')) if k else Crc32cSigner()
    alg = s.validation_alg(signature_time=timeof(num(r.randrange(1 << 41)), r.randrange(2))) if k else s.validation_alg()
    sg = s.sign(body.serialize(), alg.serialize())
    sigs = [dict(key=p_hash(rsakey(k + '.pub').keyid()), covered=by(body.serialize()) + by(alg.serialize()), sig=by(sg.payload()))] if k else []
    y = r.random()
    if y < 0.2:
        body = b_co(near_co(r, co))
    p = Pk.create_signed_content_object(body, alg, sg)
    return by(p.serialize()), sigs, k


def damage(r, b):
    b = list(b)
    x = r.random()
    if x < 0.3:
        return b[:r.randrange(len(b))]
    if x < 0.4:
        return b + list(r.randbytes(r.randint(1, 5)))
    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    return b


def sealed(r):
    """(content object of a manifest that is sealed, seal, key number, wrapping key)"""
    ccm = r.random() < 0.5
    k = r.randbytes(r.choice([16, 32]))
    salt = r.choice([None, 0, 1, r.randrange(1 << 32)])
    node = wc.rnode(r, False)
    kn = r.choice([None, 0, 1, 22, 255, 256, r.randrange(1 << 32), r.randrange(1 << 63)])
    number = kn if kn is not None else int.from_bytes(hashlib.sha256(k).digest()[:8], 'big')
    wkey = r.choice([None, None, 'wrap', 'wrap2', 'wrap2048'])
    if wkey and salt is None:
        salt = 7
    params = AeadParameters(key=(AeadCcm if ccm else AeadGcm)(k), key_number=number, aead_salt=salt,
                            kdf_data=r.choice([None, None, None, KdfData(KdfAlg(r.randint(1, 3)), r.choice([None, KdfInfo('some info')]))]))
    n = b_node(node)
    if wkey:
        e = RsaOaepEncryptor(wrapping_key=rsakey(wkey + '.pub'), params=params)
        root = r.random() < 0.7
        ctx, enc, tag = e.encrypt(n, include_wrapper=root)
    else:
        ctx, enc, tag = AeadEncryptor(params).encrypt(n)
    m = Mf(security_ctx=ctx, node=enc, auth_tag=tag)
    co = wc.rco(r, False)
    co['pt'], co['pl'] = [3], [by(m.serialize())]
    return co, dict(key=list(k), ccm=ccm, salt=[] if salt is None else [num(salt)]), kn, number, wkey


def reader_args(r, seal, kn, number, wkey, vkeys):
    """the reader's options; q as the specification has them"""
    q = dict(key=[], ccm=False, kn=[], salt=[], wrap=[])
    a, store = [], []
    if vkeys:
        k = r.choice(vkeys)
        f = k + r.choice(['.pub', '.pem'])
        a += ['-k', key(f)]
        store.append(p_hash(rsakey(k + '.pub').keyid()))
        q['wrap'] += store[:1] * f.endswith('.pem')
    want = r.choice(['right', 'right', 'right', 'none', 'key', 'salt', 'mode', 'number', 'wrap', 'otherwrap', 'pubwrap']) if seal else r.choice(['none', 'random'])
    if seal and want in ('right', 'key', 'salt', 'mode', 'number') and not (wkey and want == 'right' and r.random() < 0.5):
        q.update(key=[list(seal['key'])], ccm=seal['ccm'], salt=list(seal['salt']), kn=[num(number)] if kn is not None or r.random() < 0.2 else [])
        if want == 'key':
            b = bytearray(seal['key'])
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            q.update(key=[list(b)], kn=[num(number)])
        elif want == 'salt':
            q['salt'] = r.choice([[]] * bool(q['salt']) + [[num((denum(q['salt'][0]) if q['salt'] else 0) ^ (1 << r.randrange(32)))]])
        elif want == 'mode':
            q['ccm'] = not q['ccm']
        elif want == 'number':
            q['kn'] = [num(number ^ (1 << r.randrange(16)))]
    elif seal and wkey and want in ('right', 'wrap'):
        pass
    elif want == 'random':
        q.update(key=[list(r.randbytes(16))], kn=[num(r.randrange(300))])
    wr = None
    if seal and wkey and (want == 'wrap' or (want == 'right' and not q['key'])):
        wr = wkey + r.choice(['.pem', '_enc.pem'])
        q['wrap'] += [p_hash(rsakey(wkey + '.pub').keyid())]
    elif want == 'otherwrap':
        o = r.choice([x for x in ('wrap', 'wrap2', 'wrap2048') if x != wkey])
        wr = o + '.pem'
        q['wrap'] += [p_hash(rsakey(o + '.pub').keyid())]
    elif want == 'pubwrap':
        wr = (wkey or 'wrap') + '.pub'
        q['wrap'] = [h for h in q['wrap'] if h != p_hash(rsakey(wr).keyid())]      # the later one replaces the other
    if wr:
        a += ['--wrap-key', key(wr)] + (['--wrap-pass', PASS] if '_enc' in wr else [])
        store.append(p_hash(rsakey(wr.replace('_enc', '').split('.')[0] + '.pub').keyid()))
    if q['key']:
        a += ['--enc-key', hexes(r, q['key'][0])] + (['--aes-mode', 'CCM'] if q['ccm'] else [])
        a += (['--key-num', str(denum(q['kn'][0]))] if q['kn'] else []) + (['--salt', str(denum(q['salt'][0]))] if q['salt'] else [])
        a += kdf_args(r)
    return a, q, store, want


def run_case(chk, j, r):
    d = tempfile.mkdtemp(dir=chk.dir)
    try:
        seal, plain, kn, number, wkey = None, [], None, 0, None
        x = r.random()
        if x < 0.5:
            co, seal, kn, number, wkey = sealed(r)
        elif x < 0.7:
            co = wc.rco(r, False)
            co['pt'], co['pl'] = [3], [by(BUILD['manifest'](wc.rmanifest(r)).serialize())]
        elif x < 0.8:
            co = wc.rco(r, False)
            co['pt'], co['pl'] = [2], [by(b_link(wc.rlink(r, r.random() < 0.5)).serialize())]
        else:
            co = wc.rco(r, True, odd=0.1)
        b, sigs, k = signed(r, co)
        if len(b) > 60000:
            return None
        if r.random() < 0.12:
            b = damage(r, b)
        if seal:
            m = manifest_of(bytes(b))
            pt = open_node(m, bytes(seal['key']), seal['ccm'], denum(seal['salt'][0]) if seal['salt'] else None) if m is not None else None
            plain = [] if pt is None else [list(pt)]
        vk = [] if r.random() < 0.25 else ([k] if k and r.random() < 0.7 else [r.choice(KEYS)])
        a, q, store, want = reader_args(r, seal, kn, number, wkey, vk)
        name = r.choice([phash(bytes(b)).hex(), 'x', 'a b', 'link_00'])
        with open(os.path.join(d, name), 'wb') as f:
            f.write(bytes(b))
        pretty = r.random() < 0.4
        Co.USE_BRIEF_OUTPUT = False
        ok, e, out = text_of((['--pretty'] if pretty else []) + ['-i', d] + a + [name])
        tok, t = attempt(lambda: str(Pk.deserialize(arr(b))))
        hx, ws = tokens(out)
        return dict(t='run', id=f'run {j} {want}', bytes=list(b), store=store, sigs=sigs, q=q, seal=[seal] if seal else [], plain=plain, pretty=pretty,
                    ok=ok, shown=tok and letters(t) in letters(out), valid='validation success' in out, hexes=hx, words=ws,
                    err='' if ok else f'{ename(e)}: {e}'[:150], args=' '.join(a))
    finally:
        Co.USE_BRIEF_OUTPUT = False
        shutil.rmtree(d, ignore_errors=True)


# ---- the text of values ----------------------------------------------------
def text_case(j, r):
    k = r.choice(['packet', 'packet', 'manifest'])
    v = wc.rpacket(r, r.random() < 0.2) if k == 'packet' else wc.rmanifest(r)
    ok, o = attempt(lambda: BUILD[k](v))
    if not ok:
        return None
    b = by(o.serialize())
    if r.random() < 0.5:
        ok, o2 = attempt(lambda: PARSE[k](arr(b)))
        o = o2 if ok else o
    if len(b) > 30000:
        return None
    was = by(o.serialize())
    brief = r.random() < 0.5
    Co.USE_BRIEF_OUTPUT = brief
    try:
        ok, t = attempt(lambda: [f(o) for f in (r.choice([repr, str, lambda x: f'{x}']), repr, str)])
    finally:
        Co.USE_BRIEF_OUTPUT = False
    same = by(o.serialize()) == was
    hx, ws = tokens(t[0]) if ok else ([], [])
    return dict(t='text', id=f'text {j} {k}', k=k, bytes=b, ok=ok, same=same, hexes=hx, words=ws, err='' if ok else f'{ename(t)}: {t}'[:150])


def describe(x):
    return f"{x['id']} {x.get('args', '')} ok={x['ok']} {x['err']} bytes={bytes(x['bytes']).hex()[:300]}"


def P28(chk):
    chk.model('Show', 'Show.cfg')
    chk.model_breaks('Show', 'ShowLate.cfg')
    recs = []
    for j in range(chk.pick(220, 1500)):
        x = run_case(chk, j, random.Random(f'{chk.seed}-run-{j}'))
        if x:
            recs.append(x)
            chk.count('runs')
    for j in range(chk.pick(300, 2500)):
        x = text_case(j, random.Random(f'{chk.seed}-text-{j}'))
        if x:
            recs.append(x)
            chk.count('texts')
    chk.judge('ShowCheck', recs, describe=describe)
