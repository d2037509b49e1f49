"""Publications of the real code, recorded: configurations, writers, decryption of nodes, retrieval."""
import functools, hashlib, io, shutil, tempfile
from common import *
from wirebind import *
from cryptography.hazmat.primitives.ciphers.aead import AESGCM, AESCCM
from ccnpy.core.Packet import PacketReader, PacketWriter
from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
from ccnpy.crypto.Crc32c import Crc32cSigner
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer
from ccnpy.flic.ManifestTree import ManifestTree
from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.tree.Traversal import Traversal
from ccnpy.flic.tree.TreeIO import TreeIO

KEYDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys')
_keys = {}


def rsakey(name):
    if name not in _keys:
        with open(os.path.join(KEYDIR, name), 'rb') as f:
            _keys[name] = RsaKey(pem_key=f.read())
    return _keys[name]


def keybytes(n, tag=0):
    return bytes((7 * i + 3 + tag) % 256 for i in range(n))


def comp(t, s):
    return dict(t=t, v=list(s.encode() if isinstance(s, str) else s))


def uri(*segs):
    return [comp(1, s) for s in segs]


# ---- configurations --------------------------------------------------------
def link_of(name):
    return dict(name=[name], keyid=[], digest=[])


def rsegs(r, lo=1, hi=3, maxlen=8, binary=0.0):
    def seg():
        if r.random() < binary:
            return r.choice([[], [0], [0xff], list(b'..'), list(b'a/b'), list(b'%00'), list('é'.encode()), list(r.randbytes(r.randint(1, maxlen)))])
        return [r.choice(b'abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(r.randint(1, maxlen))]
    return [comp(1, seg()) for _ in range(r.randint(lo, hi))]


def rms(r):
    return num(r.choice([0, 1, 999, 1700000000123, 1700000000999, r.randrange(1 << 41), r.randrange(1 << 33)]))


def renc(r, p=0.4):
    if r.random() > p:
        return []
    oaep = r.random() < 0.5
    kl = r.choice([16, 32])
    ccm = r.random() < 0.5
    salted = oaep or r.random() < 0.5
    kdf = []
    if r.random() < 0.3:
        kdf = [dict(alg=num(r.choice([1, 3])), info=[] if r.random() < 0.4 else [[r.randrange(256) for _ in range(r.randrange(20))]])]
    wk = r.choice(['wrap', 'wrap', 'wrap2', 'wrap2048'])
    return [dict(oaep=oaep, kn=num(r.choice([0, 1, 22, 255, 256, 70000, (1 << 32) - 1])), nlen=8 if salted else 12,
                 mode={(16, False): 1, (32, False): 2, (16, True): 3, (32, True): 4}[kl, ccm], kdf=kdf,
                 wrap=256 if wk == 'wrap2048' else 128,
                 # for the harness only:
                 kl=kl, ccm=ccm, salt=[r.choice([0, 1, 0x01020304, 0xffffffff])] if salted else [], wkey=wk)]


def rconfig(r, schema=None, enc=None, maxp=None):
    schema = schema or r.choice(['hash', 'prefix', 'seg'])
    segs = functools.partial(rsegs, binary=0.1)         # names need not be text
    name = segs(r)
    long_ = r.choice([0, 0, 40, 90, 130])
    mp = dp = ml = dl = []
    if schema == 'seg':
        mp, dp = [uri('m') + segs(r, 0, 1)], [uri('d' * (1 + long_)) + segs(r, 0, 1)]
    elif schema == 'prefix':
        k = r.randrange(4)
        mp = [uri('m') + segs(r, 0, 1)] if k in (1, 3) else []
        dp = [uri('d' * (1 + long_))] if k in (2, 3) else []
        if k == 3 and r.random() < 0.3:
            dp = mp
    else:
        k = r.randrange(5)
        locs = lambda: [[link_of(segs(r))]]
        ml = locs() if k in (1, 3) else []
        dl = locs() if k in (2, 3) else []
        if k == 4:
            ml = dl = locs()
    exp = lambda: [rms(r)] if r.random() < 0.3 else []
    e = renc(r) if enc is None else enc
    deg = r.choice([0, 0, 2, 2, 3, 3, 4, 5, 6])
    if maxp is None:
        base = 150 + (long_ if schema != 'hash' else 0) + (60 if e else 0) + 10 * len(name) + (40 if schema == 'hash' and (ml or dl) else 0)
        if e and e[0]['oaep']:
            base += e[0]['wrap'] + 60
        maxp = base + r.choice([0, 15, 30, 45, 60, 90, 120, 200, r.randrange(300)])
    return dict(schema=schema, name=name, mp=mp, dp=dp, ml=ml, dl=dl, maxp=maxp, deg=deg, rexp=exp(), mexp=exp(), dexp=exp(),
                sign=r.choice(['none', 'crc', 'rsa', 'rsa']),
                ann=dict(ns=r.random() < 0.5, gs=r.random() < 0.3, gl=r.random() < 0.3), enc=e,
                # the number of the first data object: a name constructor context goes on counting when it is used again
                first=r.choice([1, 2, 3, 7, 254, 255, 256, 300]) if r.random() < 0.12 else 0,
                # for the harness only: so many name constructors were made before (their ids are never used again)
                nc=r.choice([0, 1, 2, 7, 100, 252, 253, 254, 255, 256, 300, r.randrange(1000)]) if r.random() < 0.6 else 0,
                # for the harness only: the file is split before, and handed over as its metadata
                meta=r.random() < 0.1)


def tlvlen(n):
    return 4 + n


def payload_room(c):
    """bytes of a data object, to aim file lengths at the boundaries (not an oracle: TLC computes its own)"""
    n = 8 + 4 + 5 + 4
    if c['dexp']:
        n += 12
    if c['schema'] != 'hash':
        name = c['dp'][0] if c['dp'] else c['name']
        n += 4 + sum(4 + len(x['v']) for x in name)
        if c['schema'] == 'seg':
            n += 7 + 7
    return max(1, c['maxp'] - n)


def rfile(r, c, chunks):
    ps = payload_room(c)
    last = r.choice([1, ps, ps, max(1, ps - 1), r.randint(1, ps)])
    n = (chunks - 1) * ps + last
    k = r.random()
    if k < 0.08:
        return [0] * n                       # all chunks identical
    if k < 0.16:
        return ([r.randrange(256) for _ in range(ps)] * chunks)[:n]
    return list(r.randbytes(n))


# ---- publication -----------------------------------------------------------
def aead_params(e, tag=0, salt=True):
    if e['kdf']:
        k = e['kdf'][0]
        kdf = KdfData(KdfAlg(denum(k['alg'])), deopt(lambda i: KdfInfo(list(i)), k['info']))
    else:
        kdf = None
    cls = AeadCcm if e['ccm'] else AeadGcm
    return AeadParameters(key=cls(keybytes(e['kl'], tag)), key_number=KeyNumber(denum(e['kn'])),
                          aead_salt=e['salt'][0] if e['salt'] else None, kdf_data=kdf)


def encryptor(c):
    if not c['enc']:
        return None
    e = c['enc'][0]
    p = aead_params(e)
    return RsaOaepEncryptor(wrapping_key=rsakey(e['wkey'] + '.pub'), params=p) if e['oaep'] else AeadEncryptor(p)


def signer(c):
    return {'none': lambda: None, 'crc': Crc32cSigner, 'rsa': lambda: RsaSha256Signer(rsakey('signer.pem'))}[c['sign']]()


def reader_keystore(c):
    ks = InsecureKeystore()
    if c['sign'] == 'rsa':
        ks.add_rsa_key('signer', rsakey('signer.pub'))
    if c['enc']:
        e = c['enc'][0]
        if e['oaep']:
            ks.add_rsa_key('wrap', rsakey(e['wkey'] + '.pem'))
        else:
            ks.add_aes_key(aead_params(e))
    return ks


DEFAULTS = dict(max_tree_degree=None, max_packet_size=1500, add_node_subtree_size=False, add_group_subtree_size=False, add_group_leaf_size=False,
                manifest_prefix=None, data_prefix=None, manifest_locators=None, data_locators=None, root_expiry_time=None, manifest_expiry_time=None,
                data_expiry_time=None, manifest_encryptor=None)


def tree_options(leave_out, **kw):
    """the options, those that have their (documented) default value left out or given"""
    return ManifestTreeOptions(**{k: v for k, v in kw.items() if not (leave_out and k in DEFAULTS and (v is None or v is DEFAULTS[k] or v == 1500))})


def options(c):
    return tree_options(
        c['maxp'] % 2 == 0,
        name=b_name(c['name']),
        schema_type={'hash': SchemaType.HASHED, 'prefix': SchemaType.PREFIX, 'seg': SchemaType.SEGMENTED}[c['schema']],
        signer=signer(c), manifest_prefix=deopt(b_name, c['mp']), data_prefix=deopt(b_name, c['dp']),
        manifest_locators=deopt(b_locs, c['ml']), data_locators=deopt(b_locs, c['dl']),
        root_expiry_time=deopt(lambda n: b_time(ExpiryTime, n), c['rexp']),
        manifest_expiry_time=deopt(lambda n: b_time(ExpiryTime, n), c['mexp']),
        data_expiry_time=deopt(lambda n: b_time(ExpiryTime, n), c['dexp']),
        manifest_encryptor=encryptor(c),
        add_node_subtree_size=c['ann']['ns'], add_group_subtree_size=c['ann']['gs'], add_group_leaf_size=c['ann']['gl'],
        max_tree_degree=c['deg'] or None, max_packet_size=c['maxp'])


class WriterFailed(OSError):
    pass


class Recorder(PacketWriter):
    """Keeps the bytes at the time of the put; may pass the packet on; may fail on the k-th put."""

    def __init__(self, outs=(), fail_at=None):
        self.events, self.outs, self.fail_at, self.error, self.calls = [], outs, fail_at, None, 0

    def put(self, packet):
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            self.error = WriterFailed('no space left')
            raise self.error
        b = bytes(packet.serialize())
        for o in self.outs:
            o.put(packet)
        self.events.append(b)


class Patchy(io.RawIOBase):
    """A source that gives less than it is asked for, as a pipe does; it is empty only at its end."""

    def __init__(self, data, seed):
        self.data, self.at, self.r = data, 0, random.Random(seed)

    def read(self, n=-1):
        n = min(len(self.data) - self.at, n)
        n = n if self.r.random() < 0.5 else self.r.randint(min(1, n), n)
        self.at += n
        return self.data[self.at - n:self.at]


class NullWriter(PacketWriter):
    def put(self, packet):
        pass


def advance(schema, c):
    """as if a long file had been published before"""
    if hasattr(schema, 'get_next_name'):
        for _ in range(c['first']):
            schema.get_next_name()
    else:
        schema.chunk_data(io.BytesIO(bytes(c['first'] * payload_room(c))), NullWriter())


def publish(c, data, writer, graph=None, keep=None):
    SchemaImplFactory.reset_nc_id()
    if c.get('nc'):
        before = ManifestTreeOptions(name=b_name(c['name']), schema_type=SchemaType.HASHED, signer=None)
        where = Locators.from_name(b_name(c['name']))
        for _ in range(c['nc']):
            SchemaImplFactory.create(tree_options=before, locators=where)
    o, ctx, source = options(c), None, Patchy(bytes(data), len(data)) if c.get('patchy') else io.BytesIO(bytes(data))
    if c['first'] or c['meta']:
        ctx = NameConstructorContext.create(o)
        if c['first'] > 1000:
            advance(ctx.data_schema_impl, c)
        else:
            for _ in range(c['first']):
                ctx.data_schema_impl.chunk_data(io.BytesIO(b'x'), NullWriter())
    if keep is not None:
        ctx = ctx or NameConstructorContext.create(o)
        keep.append(ctx)
    if c['meta']:
        source = ctx.data_schema_impl.chunk_data(source, writer)
    kw = {} if graph is None else dict(manifest_graph=graph)
    return ManifestTree(data_input=source, packet_output=writer, tree_options=o, name_context=ctx, **kw).build()


def phash(b):
    return hashlib.sha256(b[8:]).digest()


def parse_tlvs(b):
    """[(type, offset of the TLV, value)]; stops at anything malformed"""
    res, i = [], 0
    while i + 4 <= len(b):
        t, n = int.from_bytes(b[i:i + 2], 'big'), int.from_bytes(b[i + 2:i + 4], 'big')
        if i + 4 + n > len(b):
            break
        res.append((t, i, b[i + 4:i + 4 + n]))
        i += 4 + n
    return res


def manifest_of(packet):
    """the elements of the manifest inside a packet, or None"""
    top = parse_tlvs(packet[8:])
    if not top:
        return None
    body = dict((t, v) for t, _, v in parse_tlvs(top[0][2]))
    if body.get(5) != b'\x03' or 1 not in body:
        return None
    return body[1]


def open_node(m, key, ccm, salt):
    """decrypts a manifest's node as FLIC prescribes: IV = salt, nonce; associated data = the security context TLV"""
    el = {t: (o, v) for t, o, v in parse_tlvs(m)}
    if 2 not in el or 0 not in el or 3 not in el:
        return None
    o, v = el[0]
    ad = m[o:o + 4 + len(v)]
    ctx = parse_tlvs(v)
    fields = {t: x for t, _, x in parse_tlvs(ctx[0][2])} if ctx else {}
    if 1 not in fields:
        return None
    iv = (b'' if salt is None else salt.to_bytes(4, 'big')) + fields[1]
    try:
        return (AESCCM if ccm else AESGCM)(key).decrypt(iv, el[2][1] + el[3][1], ad)
    except Exception:
        return None


def event(c, b):
    pt = None
    if c['enc']:
        m = manifest_of(b)
        if m is not None:
            e = c['enc'][0]
            pt = open_node(m, keybytes(e['kl']), e['ccm'], e['salt'][0] if e['salt'] else None)
    return dict(b=list(b), h=list(phash(b)), pt=[] if pt is None else [list(pt)])


def events(c, rec):
    return [event(c, b) for b in rec.events]


class Sink:
    def __init__(self):
        self.writes = []

    def write(self, data):
        self.writes.append(bytes(data))

    def bytes(self):
        return b''.join(self.writes)


def retrieve(reader, name, restriction, keystore, build_graph=False):
    sink = Sink()
    t = Traversal(packet_input=reader, data_writer=sink, keystore=keystore, build_graph=build_graph)
    ok, e = attempt(t.traverse, root_name=name, hash_restriction=restriction, seconds=60)
    return ok, e, sink, t


def read_dot(path):
    """nodes and edges (byte strings) of the saved graph"""
    nodes, edges, looks = set(), set(), []
    with open(path) as f:
        for line in f:
            ids = re.findall(r'"?0x([0-9a-fA-F]+)"?', re.sub(r'\[.*', '', line))
            nodes.update(ids)
            if '->' in line:
                edges.update(zip(ids, ids[1:]))
            elif len(ids) == 1 and (color := re.search(r'color="?(\w+)', line)):
                looks.append((ids[0], color[1], m[1] if (m := re.search(r'label="?([^",\]]*)', line)) else ''))
    b = lambda s: list(bytes.fromhex(s))
    return dict(nodes=[b(x) for x in sorted(nodes)], edges=[dict(a=b(u), b=b(v)) for u, v in sorted(edges)],
                looks=[dict(h=b(h), color=c, label=l) for h, c, l in looks])


def cid(c):
    """a compact description of a configuration"""
    e = ''
    if c['enc']:
        x = c['enc'][0]
        e = f" enc={'oaep' if x['oaep'] else 'aead'}/{'ccm' if x['ccm'] else 'gcm'}{x['kl']}{'/salt' if x['salt'] else ''}{'/kdf' if x['kdf'] else ''}"
    return (f"{c['schema']} maxp={c['maxp']} deg={c['deg']} sign={c['sign']}{e} "
            + ''.join(k for k in ('mp', 'dp', 'ml', 'dl', 'rexp', 'mexp', 'dexp') if c[k])
            + (f" first={c['first']}" if c['first'] else '') + (f" nc={c['nc']}" if c.get('nc') else '') + (' meta' if c['meta'] else '') + ' ann=' + ''.join(k for k, v in c['ann'].items() if v))
