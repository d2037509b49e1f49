"""P31: the manifest factory (spec/Factory.tla, FactoryGen.tla, FactoryCheck.tla)."""
from publish import *
import wirecases as wc
from checks_cli import signed_by
from ccnpy.flic.ManifestFactory import ManifestFactory
from ccnpy.flic.tree.ManifestGraph import ManifestGraph


def crc32c(data):
    c = 0xffffffff
    for x in data:
        c ^= x
        for _ in range(8):
            c = (c >> 1) ^ (0x82f63b78 if c & 1 else 0)
    return (c ^ 0xffffffff).to_bytes(4, 'big')


def who_signed(b):
    """whose validator the packet holds: a key's name, "crc", or none"""
    top = {t: (o, v) for t, o, v in parse_tlvs(b[8:])}
    if not {2, 3, 4} <= set(top):
        return []
    body = b''.join(b[8 + top[t][0]:8 + top[t][0] + 4 + len(top[t][1])] for t in (2, 3))
    if top[4][1] == crc32c(body):
        return ['crc']
    return [k for k in ('signer', 'other') if signed_by(b, k)][:1]


def sign_with(k):
    return None if not k else Crc32cSigner() if k[0] == 'crc' else RsaSha256Signer(rsakey(k[0] + '.pem'))


def group(r):
    return dict(gd=[wc.rgroupdata(r)] if r.random() < 0.5 else [], ptrs=pointers(r))


def pointers(r):
    return [dict(a=1, v=wc.rbytes(r, 32)) for _ in range(r.choice([1, 1, 2, 3, 7]) if r.random() < 0.99 else r.randrange(250, 420))]


def ncdef(r):
    return dict(id=num(r.choice([0, 1, 2, 255, 70000])), s=wc.rschema(r))


def call(r, k):
    g = k['g']
    n = lambda f: [num(r.choice([0, 1, 255, 256, 65536, r.randrange(1 << 40)]))] if g[f] else []
    c = dict(src=k['src'], ptrs=[], hgs=[], node=[], ncs=[[ncdef(r) for _ in range(r.choice([0, 1, 1, 2]))]] if g['ncs'] else [],
             nss=n('nss'), gss=n('gss'), gls=n('gls'), nc=n('nc'), ssid=n('ssid'),
             name=wc.ropt(r, lambda: rsegs(r)), exp=wc.ropt(r, lambda: rms(r)), full=r.random() < 0.5,
             sig=[r.choice(['signer', 'other', 'crc'])] if r.random() < 0.4 else [])
    if c['src'] == 'pointers':
        c['ptrs'] = pointers(r)
    elif c['src'] == 'node':
        c['node'] = [wc.rnode(r, False)]
    else:
        c['hgs'] = [group(r) for _ in range(1 if c['src'] == 'group' else r.choice([1, 2, 2, 3]))]
    return c


def history(chk, j, o, ks):
    r = random.Random(f'{chk.seed}-{j}')
    enc = renc(r, 0.45)
    o = dict(o, maxp=r.choice([1500, 1500, 9000, 60000, 60, r.randint(60, 700), r.randint(60, 700)]), enc=enc,
             wrapid=[p_hash(rsakey(enc[0]['wkey'] + '.pub').keyid())] if enc and enc[0]['oaep'] else [])
    standing = [r.choice(['signer', 'other', 'crc'])] if r.random() < 0.6 else []
    opts = tree_options(r.random() < 0.5, name=b_name(uri('r')), schema_type=SchemaType.HASHED, signer=sign_with(standing), manifest_encryptor=encryptor(o),
                               add_node_subtree_size=o['ns'], add_group_subtree_size=o['gs'], add_group_leaf_size=o['gl'], max_packet_size=o['maxp'])
    graph = ManifestGraph() if r.random() < 0.2 else None
    fac = ManifestFactory(opts, graph) if graph is not None else ManifestFactory(tree_options=opts)
    calls = []
    for k in ks:
        c = call(r, k)
        plain = r.random() < 0.5           # sizes may be plain numbers
        size = lambda cls, x: deopt(lambda n: denum(n) if plain else cls(denum(n)), x)
        if c['src'] == 'pointers':
            src = Pointers([b_hash(p) for p in c['ptrs']])
        elif c['src'] == 'node':
            src = b_node(c['node'][0])
        else:
            src = [b_hashgroup(h) for h in c['hgs']]
            src = src[0] if c['src'] == 'group' else src
        wire = lambda: [by(x.serialize()) for x in (src if isinstance(src, list) else [src])]
        before = wire()
        ok, p = attempt(lambda: fac.build_packet(
            src, nc_defs=deopt(lambda ds: [b_ncdef(d) for d in ds], c['ncs']), node_subtree_size=size(SubtreeSize, c['nss']),
            group_subtree_size=size(SubtreeSize, c['gss']), group_leaf_size=size(LeafSize, c['gls']),
            nc_id=deopt(lambda n: NcId(denum(n)), c['nc']), start_segment_id=deopt(lambda n: StartSegmentId(denum(n)), c['ssid']),
            name=deopt(b_name, c['name']), expiry_time=deopt(lambda n: b_time(ExpiryTime, n), c['exp']), signer=sign_with(c['sig']),
            include_full_security_context=c['full']))
        b = bytes(p.serialize()) if ok else b''
        pt = None
        if ok and enc:
            m = manifest_of(b)
            pt = open_node(m, keybytes(enc[0]['kl']), enc[0]['ccm'], enc[0]['salt'][0] if enc[0]['salt'] else None) if m is not None else None
        chk.count('made' if ok else 'refused')
        calls.append(dict(c, ok=ok, err='' if ok else f'{ename(p)}: {p}'[:150], b=list(b), pt=[] if pt is None else [list(pt)],
                          signed=who_signed(b) if ok else [], keyid=[p_hash(rsakey(c['sig'][0] + '.pub').keyid())] if c['sig'] and c['sig'][0] != 'crc' else [],
                          same=wire() == before, cnt=fac.cnt_manifests, bytes=fac.cnt_manifest_bytes, id=list(phash(b)[:3]) if ok else []))
    nodes = []
    if graph is not None:
        path = os.path.join(chk.dir, f'g{j}.dot')
        ok, e = attempt(graph.save, path)
        if ok:
            nodes = [[x[:3] for x in read_dot(path)['nodes']]]
            os.unlink(path)
        elif any(c['ok'] for c in calls):
            nodes = [[]]
    return dict(id=f'{j}', o=o, standing=standing, calls=calls, graph=nodes)


def P31(chk):
    r = chk.rng
    chk.model('Factory', 'Factory.cfg')
    chk.model_breaks('Factory', 'FactoryLoose.cfg')
    cases = chk.generate('FactoryGen')
    cases.sort(key=json.dumps)
    chk.exhaustive = [f'{len(cases)} combinations of source, annotations given and annotations allowed']
    by_opts = {}
    for k in cases * chk.pick(1, 12):
        by_opts.setdefault(json.dumps(k['o']), []).append(k)
    recs = []
    for o, ks in by_opts.items():
        r.shuffle(ks)
        while ks:
            n = r.randint(1, 6)
            recs.append(history(chk, len(recs), json.loads(o), ks[:n]))
            ks = ks[n:]
    chk.judge('FactoryCheck', recs, describe=lambda x: f"{x['id']} options={x['o']} standing={x['standing']} " + ' '.join(
        f"[{c['src']} sig={c['sig']} ok={c['ok']} {c['err']}]" for c in x['calls']))
