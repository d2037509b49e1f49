"""P16, P19, P22: histories of stateful objects, against state machines."""
from publish import *
from ccnpy.core.Link import Link
from ccnpy.core.PacketValidator import PacketValidator
from ccnpy.flic.HashGroupBuilder import HashGroupBuilder
from ccnpy.flic.name_constructor.HashSchemaImpl import HashSchemaImpl
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.name_constructor.PrefixSchemaImpl import PrefixSchemaImpl
from ccnpy.flic.name_constructor.SegmentedSchemaImpl import SegmentedSchemaImpl
from ccnpy.flic.tree.HashGroupBuilderPair import HashGroupBuilderPair


# ---- P22 -------------------------------------------------------------------
def hg_hash(i):
    return HashValue.create_sha256([(i * 7 + j + 1) % 256 for j in range(32)])


def hg_context(pair, kind, nc, nc2):
    name = Name.from_uri('ccnx:/e')

    def impl(i, uri):
        if kind == 'hash':
            return HashSchemaImpl(nc_id=NcId(i), schema=HashSchema(locators=Locators.from_name(Name.from_uri(uri))),
                                  tree_options=ManifestTreeOptions(max_packet_size=1500, name=name, signer=None,
                                                                   schema_type=SchemaType.HASHED))
        if kind == 'prefix':
            return PrefixSchemaImpl(nc_id=NcId(i), schema=PrefixSchema(name=Name.from_uri(uri)),
                                    tree_options=ManifestTreeOptions(max_packet_size=1500, name=name, signer=None,
                                                                     schema_type=SchemaType.PREFIX))
        return SegmentedSchemaImpl(nc_id=NcId(i), schema=SegmentedSchema.create_for_data(name=Name.from_uri(uri)),
                                   tree_options=ManifestTreeOptions(max_packet_size=1500, name=name, signer=None,
                                                                    schema_type=SchemaType.SEGMENTED))
    m = impl(nc2 if pair == 2 else nc, 'ccnx:/e/m')
    d = m if pair == 1 else impl(nc, 'ccnx:/e/d')
    return NameConstructorContext(manifest_schema_impl=m, data_schema_impl=d)


def hg_run(chk, g, i):
    """Replays a history into the real builder."""
    inf = float('inf')
    lim = lambda x: inf if x < 0 else x
    pair, nc, nc2 = g['pair'], g.get('nc', 1), g.get('nc2', 2)
    if pair == 0:
        kw = {}
        if g['maxd'] >= 0 or g.get('explicit'):
            kw['max_direct'] = lim(g['maxd'])
        if g['maxi'] >= 0 or g.get('explicit'):
            kw['max_indirect'] = lim(g['maxi'])
        b = HashGroupBuilder(**kw)
    else:
        b = HashGroupBuilderPair(hg_context(pair, g.get('kind', 'hash'), nc, nc2), lim(g['maxd']), lim(g['maxi']))
    f = dict(ad='append_direct', pd='prepend_direct', ai='append_indirect', pi='prepend_indirect')
    rec = dict(id=f'{i}', pair=pair, maxd=g['maxd'], maxi=g['maxi'], ops=[])
    taken = []
    for k, op in enumerate(g['ops']):
        op = dict(op)
        if op['k'] in f:
            op['h'] = op.get('h', k)
            args = [hg_hash(op['h'])] + op['size'] if k % 2 else [hg_hash(op['h'])]
            kw = {} if k % 2 or not op['size'] else {'leaf_size' if op['k'][1] == 'd' else 'subtree_size': op['size'][0]}
            ok, e = attempt(getattr(b, f[op['k']]), *args, **kw)
            op['ok'] = ok
            op['obs'] = dict(dc=b.direct_count() if pair == 0 else 0, ic=b.indirect_count() if pair == 0 else 0,
                             ds=b.direct_size(), df=bool(b.is_direct_full()), **{'is': b.indirect_size(), 'if': bool(b.is_indirect_full())})
        else:
            ss = opt(StartSegmentId, op['ss'][0] if op['ss'] else None)
            ss2 = opt(StartSegmentId, op['ss2'][0] if op['ss2'] else None)
            if pair == 0:
                if op['k'] == 'ptrs':
                    take = lambda: [b.pointers()]
                else:
                    take = lambda: [b.hash_group(nc_id=deopt(NcId, op['nc']), start_segment_id=ss[0] if ss else None,
                                                 include_leaf_size=op['leaf'], include_subtree_size=op['sub'])]
            else:
                op.update(nc=[nc], nc2=[nc2])
                if pair == 1:
                    op.update(ss=[], ss2=[])
                    ss = ss2 = []
                take = lambda: b.hash_groups(include_leaf_size=op['leaf'], include_subtree_size=op['sub'],
                                             direct_start_segment_id=ss[0] if ss else None,
                                             indirect_start_segment_id=ss2[0] if ss2 else None)
            op.setdefault('nc2', [])
            ok, t = attempt(take)
            op.update(ok=ok, got=[], end=[], bytes=[])
            if ok:
                p = (lambda t: [dict(ptrs=p_ptrs(x)) for x in t]) if op['k'] == 'ptrs' else lambda t: [p_hashgroup(x) for x in t]
                op['got'] = p(t)
                op['bytes'] = [v for x in t for v in by(x.serialize())]
                taken.append((op, t, p))
        rec['ops'].append(op)
    for op, t, p in taken:
        op['end'] = p(t)
    return rec


def rgroup(r, pair):
    o = lambda f: [f()] if r.random() < 0.5 else []
    big = lambda: r.choice([0, 1, 255, 256, 65535, 65536, r.randrange(1 << 30)])
    return dict(k='ptrs' if pair == 0 and r.random() < 0.2 else 'group', nc=o(big), ss=o(big), ss2=o(big),
                leaf=r.random() < 0.5, sub=r.random() < 0.5)


def P22(chk):
    r = chk.rng
    chk.model('HgBuilder')
    chk.exhaustive = ['all sequences of up to 3 (thorough 4) additions under all limits 0, 1, 2, none, single builder and pairs']
    recs = []
    variants = [dict(k='group', nc=nc, ss=ss, ss2=[], leaf=l, sub=s) for nc in ([], [3]) for ss in ([], [0]) for l in (False, True) for s in (False, True)]
    gen = chk.generate('HgGen', chk.pick('HgGen.cfg', 'HgGenBig.cfg'))
    for i, g in enumerate(gen):
        if not chk.thorough and len(g['ops']) == 3 and i % 4:
            continue
        v = variants[i % 16]
        w = variants[(i // 16) % 16]
        g['ops'] = g['ops'][:-1] + [v] + g['ops'][-1:] + [w, v]
        g['kind'] = ['hash', 'prefix', 'seg'][i % 3]
        recs.append(hg_run(chk, g, i))
    chk.count('enumerated', len(recs))
    for i in range(chk.pick(406, 6060)):
        pair = r.choice([0, 0, 1, 2])
        long_ = i % 100 == 99 or i < 3                 # more pointers than a byte can count
        maxd, maxi = (r.choice([-1, -1, 0, 1, 3, 8, 30] if not long_ else [-1, 255, 256, 300]) for _ in range(2))
        ops = []
        for _ in range(r.randint(1, 60) if not long_ else 500):
            if r.random() < (0.15 if not long_ else 0.003):
                ops.append(rgroup(r, pair))
            else:
                k = r.choice(['ad', 'pd', 'ai', 'pi'] if pair == 0 else ['pd', 'ai', 'pi'])
                z = r.choice([[], [0], [1], [1400], [r.randrange(1 << (20 if long_ else 25))]])
                ops.append(dict(k=k, size=z, h=r.randrange(200)))
        ops.append(rgroup(r, pair))
        recs.append(hg_run(chk, dict(pair=pair, maxd=maxd, maxi=maxi, ops=ops, nc=r.choice([1, 300]), nc2=r.choice([2, 70000]),
                                     explicit=r.random() < 0.5, kind=r.choice(['hash', 'prefix', 'seg'])), f'r{i}'))
    chk.judge('HgCheck', recs, describe=lambda r: f"{r['id']}: pair {r['pair']} limits {r['maxd']},{r['maxi']}: " + ' '.join(o['k'] for o in r['ops']))


# ---- P19 -------------------------------------------------------------------
class Store:
    """One of the stores, and what was put into it."""

    def __init__(self, chk, kind, link, pool, signer=None, nested=False):
        self.kind, self.link, self.pool, self.signer = kind, link, pool, signer
        self.nested, self.spoiled = nested, []
        self.hist, self.puts = [], []
        self.index = {}
        for i, p in enumerate(pool, 1):
            self.index.setdefault(bytes(p.serialize()), i)
        self.dir = None
        if kind == 'dir':
            self.dir = tempfile.mkdtemp(dir=chk.dir)
            self.reader = TreeIO.PacketDirectoryReader(self.dir)
        self.writer = self.open()

    def open(self):
        if self.kind == 'dir':
            return TreeIO.PacketDirectoryWriter(self.dir, link_named_objects=self.link, signer=self.signer,
                                              **({'nested': True} if self.nested else {}))
        return TreeIO.PacketMemoryWriter() if self.kind == 'memory' else None

    def put(self, x, copy=False):
        ok = True
        p = self.pool[x - 1]
        if copy:        # an equal packet, another object
            p = PACKET.deserialize(array.array('B', p.serialize()))
        self.puts.append(p)
        self.spoiled = [n for n in self.spoiled if n != p.body().name()]
        if self.writer is not None:
            ok, e = attempt(self.writer.put, p)
        self.hist.append(dict(op='put', x=self.index[bytes(self.pool[x - 1].serialize())], ok=ok))

    def damage(self, x, how, r):
        """something outside of the store spoils the file of a packet"""
        if self.kind != 'dir':
            return
        path = self.path(x)
        if not os.path.exists(path):
            return
        b = bytearray(open(path, 'rb').read())
        if how in ('cut', 'flip') and len(b) < 9:
            how = 'longer'
        if how == 'gone':
            os.remove(path)
        else:
            if how == 'cut':
                b = b[:r.randrange(len(b))]
            elif how == 'empty':
                b = b''
            elif how == 'flip':
                b[r.randrange(8, len(b))] ^= 1 << r.randrange(8)
            elif how == 'longer':
                b += bytes(r.randrange(1, 9))
            elif len(b) < 30:
                b = b''
            else:
                b = bytes(TreeIO_other(b))
            with open(path, 'wb') as f:
                f.write(b)
        self.hist.append(dict(op='damage', x=self.index[bytes(self.pool[x - 1].serialize())]))

    def path(self, x):
        h = phash(bytes(self.pool[x - 1].serialize())).hex()
        return os.path.join(self.dir, *([h[:2], h[2:4]] if self.nested else []), h)

    def replace_link(self, x, how, r, forged):
        """something outside of the store replaces the link file of the name of a packet"""
        nm = self.pool[x - 1].body().name()
        if self.kind != 'dir' or not self.link or nm is None:
            return
        path = os.path.join(self.dir, TreeIO.get_link_name(nm))
        if not os.path.exists(path):
            return
        others = [p for p in self.pool if p.body().name() != nm]
        named = [os.path.join(self.dir, TreeIO.get_link_name(p.body().name())) for p in others
                 if p.body().name() is not None and p.body().name() not in self.spoiled]
        named = [p for p in named if os.path.exists(p)]
        self.spoiled.append(nm)
        if how == 'copy' and named:      # the link of another name
            b = open(r.choice(named), 'rb').read()
        elif how == 'forge' and others:  # a link of this name to another packet
            b = bytes(forged(nm, HashValue.create_sha256(list(phash(bytes(r.choice(others).serialize()))))))
        elif how == 'dangle':
            b = bytes(forged(nm, HashValue.create_sha256([r.randrange(256)] * 32)))
        else:                            # not a link
            b = bytes(mkpacket(p_name(nm), 0, [1, 2, 3, r.randrange(256)]).serialize())
        with open(path, 'wb') as f:
            f.write(b)
        self.hist.append(dict(op='link', x=self.index[bytes(self.pool[x - 1].serialize())]))

    def files(self, validator):
        if self.kind != 'dir':
            return
        fs = []
        for d, _, names in os.walk(self.dir):
            rel = os.path.relpath(d, self.dir)
            for n in names:
                b = open(os.path.join(d, n), 'rb').read()
                x = self.index.get(b, -1)
                ok = x > 0 or attempt(lambda: validator.validate_packet(PACKET.deserialize(array.array('B', b))))[0]
                fs.append(dict(path=([] if rel == '.' else rel.split(os.sep)) + [n], x=x, b=[] if x > 0 else list(b), ok=ok))
        self.hist.append(dict(op='files', fs=fs))

    def reopen(self):
        if self.kind == 'dir':
            self.writer.close()
            self.writer = self.open()
            self.hist.append(dict(op='new'))

    def get(self, name, h, via=0):
        """name: abstract or None; h: pool index, 0, or None"""
        if self.kind == 'dir':
            reader = self.reader if via % 2 else TreeIO.PacketDirectoryReader(self.dir)
        elif self.kind == 'memory':
            reader = self.writer if via % 2 else TreeIO.PacketMemoryReader(self.writer)
        else:
            reader = TreeIO.PacketMemoryReader(list(self.puts))
        hv = None if h is None else HashValue.create_sha256([9] * 32) if h == 0 else \
            b_hash(p_hash(self.pool[h - 1].content_object_hash()))
        ok, p = attempt(reader.get, name=None if name is None else b_name(name), hash_restriction=hv)
        self.hist.append(dict(op='get', name=[] if name is None else [name], h=[] if h is None else [h], ok=ok,
                              got=self.index.get(bytes(p.serialize()), -1) if ok else 0))

    def totals(self):
        w = self.writer
        f = dict(bp='total_bytes_by_packet', bh='total_bytes_by_hash')
        t, lst = {}, []
        if self.kind == 'dir':
            f.update(cm='cnt_manifest', cd='cnt_data', bm='bytes_manifest', bd='bytes_data')
        elif self.kind == 'memory':
            t['n'] = len(w)
            lst = [[self.index.get(bytes(p.serialize()), -1) for p in w]]
        else:
            return
        t.update({k: int(getattr(w, v)) for k, v in f.items()})
        self.hist.append(dict(op='totals', t=t, list=lst))

    def record(self, i):
        if self.dir:
            shutil.rmtree(self.dir)
        hs = [phash(bytes(p.serialize())) for p in self.pool]
        return dict(id=i, kind=self.kind, link=self.link, nested=self.nested, signed=self.signer is not None,
                    pool=[by(p.serialize()) for p in self.pool], hash=[list(h) for h in hs], hex=[h.hex() for h in hs], hist=self.hist)


DAMAGE = ['cut', 'empty', 'flip', 'longer', 'gone', 'other']


def TreeIO_other(b):
    """another packet of the same length"""
    pl = mkpacket(None, 0, [])
    room = len(b) - len(pl.serialize())
    return (mkpacket(None, 0, [7] * room) if room > 0 else pl).serialize()


def mkpacket(name, k, payload, crc=False):
    """k: 0 data, 1 key, 2 link, 3 manifest, None: no payload type"""
    c = dict(name=[] if name is None else [name], exp=[], pt=[] if k is None else [k], pl=[payload], fc=[])
    co = b_co(c)
    if crc:
        s = Crc32cSigner()
        a = s.validation_alg()
        return PACKET.create_signed_content_object(co, a, s.sign(co.serialize(), a.serialize()))
    return PACKET.create_content_object(co)


from ccnpy.core.Packet import Packet as PACKET

NASTY = ['a', 'b', 'a/b', 'a%2Fb', 'a~b', '~', '%7E', '.', '..', '', 'Name=a', 'ChunkId=1', '1', 'ä', 'a b', "a'b", 'a"b', 'A', 'a.link', '\\', 'a\nb', '[a]', '0']


def rname19(r):
    comps = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
        t = r.choice([1, 1, 1, 1, 5, 16, 2, 3, 4096])
        if t == 1:
            v = list(r.choice(NASTY).encode()) if r.random() < 0.9 else [255, r.choice([0, 254])]
        else:
            v = r.choice([[1], [0], [0, 1], [1, 0], [255], [49], [1, 2, 3, 4, 5, 6, 7, 8, 9]])
        comps.append(dict(t=t, v=v))
    return comps


def confusing(r, n):
    """a name of one component that reads like (the file name of) another name"""
    read = [repr(b_name([c]).component(0)) for c in n]
    v = r.choice(['~', '/', '%7E', '~~', '']).join(read)
    v = v[v.find('=') + 1:] if r.random() < 0.8 else r.choice(['', '~', '/']) + v
    if r.random() < 0.2:
        v = TreeIO.get_link_name(b_name(n))
    return [dict(t=1, v=list(v.encode('utf-8', 'replace'))[:200])]


def long_names(r):
    """names that differ only at their ends, and whose link files have names of up to 255 characters"""
    k = r.choice([r.randrange(20, 242), r.randrange(180, 242)])
    if r.random() < 0.75:
        base, room = [dict(t=1, v=[97 + r.randrange(26)] * k)], lambda t: [dict(t=1, v=base[0]['v'] + list(t.encode()))]
    else:
        base = [dict(t=1, v=[98] * r.randrange(1, 4)) for _ in range(k // 10)]
        room = lambda t: base + [dict(t=1, v=list(t.encode()))]
    return [room(t) for t in ('1', '2', '12')]


def P19(chk):
    chk.model('Store', chk.pick('Store.cfg', 'StoreBig.cfg'))
    chk.model_breaks('Store', 'StoreLink.cfg')
    chk.model_breaks('Store', 'StoreBroken.cfg')
    chk.model_breaks('Store', 'StoreKeep.cfg')
    r = chk.rng
    chk.exhaustive = [f'all histories of up to {chk.pick(3, 5)} puts of 5 packets, or damage to their files, with every fetch afterwards, in 4 stores']
    recs = []
    A, B, C = uri('A'), uri('B'), uri('C')
    mani = lambda n: [0, 1, 0, 8, 0, 1, 0, 4, 0, 7, 0, 0][:12]
    pool = [mkpacket(A, 0, [1, 2]), mkpacket(A, 3, mani(1)), mkpacket(B, 3, mani(2)), mkpacket(None, 0, [4]), mkpacket(None, 3, mani(3))]
    kinds = [('memory', False), ('list', False), ('dir', True), ('dir', False)]
    gen = chk.generate('StoreGen', chk.pick('StoreGen.cfg', 'StoreGenBig.cfg'))
    for j, g in enumerate(gen):
        spoiled = any(x > 5 for x in g['puts'])
        for kind, link in kinds[2:3] if spoiled else kinds if j % 3 == 0 or len(g['puts']) < 3 else kinds[2:3]:
            s = Store(chk, kind, link, pool)
            for k, x in enumerate(g['puts']):
                if k == 2 and j % 5 == 0:
                    s.reopen()
                if x <= 5:
                    s.put(x)
                else:
                    s.damage((1, 2, 4)[x - 6], DAMAGE[(j + k) % 6], r)
                    if j % 2:
                        s.reopen()
            for n in (None, A, B, C):
                for h in (0, 1, 2, 3, 4, 5):
                    s.get(n, h, via=j)
                if kind == 'dir':
                    s.get(n, None, via=j)
            s.totals()
            recs.append(s.record(f'enum {j} {kind} {link}'))
    chk.count('enumerated', len(recs))
    sg = RsaSha256Signer(rsakey('signer.pem'))
    ks = InsecureKeystore()
    ks.add_rsa_key('signer', rsakey('signer.pem'))
    validator = PacketValidator(ks)

    def forged(name, h):
        c = ContentObject.create_link(name=name, link=Link(name=name, digest=h))
        s = r.choice([Crc32cSigner(), sg])
        a = s.validation_alg()
        return PACKET.create_signed_content_object(c, a, s.sign(c.serialize(), a.serialize())).serialize()
    for j in range(chk.pick(350, 4000)):
        names = [rname19(r) for _ in range(r.randint(1, 5))]
        if r.random() < 0.4:
            names.append(confusing(r, r.choice(names)))
        if r.random() < 0.2:
            names += long_names(r)
        pool = []
        for _ in range(r.randint(1, 9)):
            n = None if r.random() < 0.25 else r.choice(names)
            pool.append(mkpacket(n, r.choice([0, 0, 0, 3, 3, 1, 2, None]), [r.randrange(4) for _ in range(r.choice([1, 1, 50, 3000]))], r.random() < 0.2))
        kind, link = r.choice([('memory', False), ('list', False), ('dir', True), ('dir', True), ('dir', True), ('dir', False)])
        s = Store(chk, kind, link, pool, sg if kind == 'dir' and r.random() < 0.2 else None, kind == 'dir' and r.random() < 0.15)
        for _ in range(r.randint(1, 30)):
            x = r.random()
            if x < 0.45:
                s.put(r.randint(1, len(pool)), copy=r.random() < 0.4)
            elif x < 0.48:
                s.replace_link(r.randint(1, len(pool)), r.choice(['copy', 'copy', 'forge', 'dangle', 'data']), r, forged)
            elif x < 0.5:
                s.reopen()
            elif x < 0.53:
                s.damage(r.randint(1, len(pool)), r.choice(DAMAGE), r)
            elif x < 0.57:
                s.totals()
            elif s.nested or x < 0.6:
                s.files(validator)
            else:
                q = r.randint(1, len(pool))
                pn = opt(p_name, pool[q - 1].body().name())
                n = r.choice([None] + [r.choice(names)] * 2 + (pn or [None]) * 4)
                h = r.choice([q, q, q, 0, None])
                if h is None and (kind != 'dir' or n is None):
                    h = q
                s.get(n, h, via=r.randint(0, 1))
        for n in names:
            if kind == 'dir' and not s.nested:
                s.get(n, None)
        s.files(validator)
        s.totals()
        recs.append(s.record(f'random {j} {kind} {link} names {names}'))
    chk.judge('StoreCheck', recs, describe=lambda r: r['id'][:200])
