"""P18: name-constructor scoping, on hand-made trees (spec/NcScope.tla); P30: what a walk trusts (spec/Walk.tla)."""
from publish import *
import wirecases as wc
from ccnpy.core.Packet import Packet as Pk
from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
from ccnpy.flic.RsaOaepCtx.RsaOaepImpl import RsaOaepImpl
from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
from ccnpy.core.KeyId import KeyId


class OracleReader(PacketReader):
    """Serves packets by hash, whatever the name, and notes every fetch."""

    def __init__(self, by_hash):
        self.by_hash, self.log = by_hash, []

    def get(self, name, hash_restriction, forwarding_hints=None):
        k = (int(hash_restriction.hash_algorithm()), bytes(by(hash_restriction.value())))
        node, b = self.by_hash.get(k, (0, None))
        self.log.append(dict(name=opt(p_name, name), kid=node))
        if b is None:
            raise KeyError('no such object')
        return Pk.deserialize(arr(b))

    def close(self):
        pass


def shape(d, nc):
    D = lambda i: dict(k='data', pl=[i], defs=[], groups=[])
    M = lambda defs, groups: dict(k='man', pl=[], defs=defs, groups=groups)
    G = lambda n, kids: dict(nc=[n], ss=[3], kids=kids)
    return [M(d['d1'], [G(nc[0], [2]), G(nc[1], [3, 4]), G(nc[2], [5])]), D(2), M(d['d3'], [G(nc[3], [6, 7]), G(nc[4], [8])]),
            M(d['d4'], [G(nc[5], [10, 11])]), D(5), D(6), M(d['d7'], [G(nc[6], [9])]), D(8), D(9), D(10), D(11)]


def rschema(r):
    k = r.choice(['hash', 'prefix', 'seg', 'seg'])
    name = [comp(1, r.choice(['a', 'b', 'cc', 'd1', b'\xff\x00', b''])) for _ in range(r.randint(1, 2))]
    return dict(k=k, name=[] if k == 'hash' else [name], sfx=[r.choice([[5], [16], [16], [255], [1, 0], [1, 5], [255, 255]])] if k == 'seg' else [],
                loc=[[link_of(name)]] if k == 'hash' else [], flags=[])


def rtree(r, broken, empty=0.05):
    """A random tree in topological order: node 1 is the root; a few nodes have several parents."""
    T = [None]

    def man(depth, known):
        defs = []
        p = 1.0 if depth == 0 else 0.35
        if r.random() < p:
            ids = r.sample([1, 2, 3, 300, 70000], r.randint(1, 3))
            defs = [dict(id=i, s=rschema(r)) for i in ids]
        here = known + [d['id'] for d in defs]
        if not here:
            defs = [dict(id=1, s=rschema(r))]
            here = [1]
        groups = []
        for _ in range(r.choice([1, 1, 2, 3])):
            kids = []
            for _ in range(r.randint(0, 4)):
                x = r.random()
                if x < 0.3 and depth < 4 and len(T) < 40:
                    kids.append(man(depth + 1, here))
                elif x < 0.4 and data:
                    kids.append(r.choice(data))
                elif x < 0.5 and shared and not broken:
                    # (a subtree that brings its own definitions can be anywhere)
                    kids.append(r.choice(shared))
                elif broken and x > 0.96:
                    T.append(dict(k=r.choice(['other', 'missing']), pl=[len(T) % 256, 1], defs=[], groups=[]))
                    kids.append(len(T) - 1)
                else:
                    T.append(dict(k='data', pl=[] if r.random() < empty else [len(T) % 256] + [r.randrange(256) for _ in range(r.randint(0, 5))], defs=[], groups=[]))
                    data.append(len(T) - 1)
                    kids.append(len(T) - 1)
            nc = r.choice(here) if not broken or r.random() < 0.93 else r.choice([1, 2, 3, 9])
            groups.append(dict(nc=[nc], ss=[r.choice([0, 0, 1, 250, 65530])], kids=kids))
        T.append(dict(k='man', pl=[], defs=defs, groups=groups))
        if not known or {g['nc'][0] for g in groups} <= {d['id'] for d in defs}:
            if all(T[k]['k'] == 'data' for g in groups for k in g['kids']):
                shared.append(len(T) - 1)
        return len(T) - 1
    data, shared = [], []
    root = man(0, [])
    return T[1:], root


def wide_tree(r):
    """manifests with some hundred pointers, or some hundred groups, or so many definitions, and long chains"""
    T = []

    def add(**n):
        T.append(dict(dict(k='data', pl=[], defs=[], groups=[]), **n))
        return len(T)
    data = [add(pl=[j % 256, j // 256]) for j in range(r.randrange(260, 420))]
    ids = r.sample(range(1000), 300)
    group = lambda ids, kids, ss=None: dict(nc=[r.choice(ids)], ss=[r.choice([0, 250, 65400, 65530]) if ss is None else ss], kids=kids)
    inner = add(k='man', groups=[group(ids, data[:3])])
    few = add(k='man', defs=[dict(id=i, s=rschema(r)) for i in r.sample(ids, 2)], groups=[group(ids, data[:2]), group(ids, [inner])])
    broad = add(k='man', groups=[group(ids, data[:-2] + [inner] + data[-2:])])
    parts = add(k='man', groups=[group(ids, [x]) for x in data])
    chain = few
    for j in range(r.randrange(40, 70)):
        chain = add(k='man', groups=[group(ids, [r.choice(data), chain])],
                    defs=[dict(id=r.choice(ids), s=rschema(r))] if r.random() < 0.4 else [])
    kids = [broad, parts, chain, few]
    r.shuffle(kids)
    kinds = [rschema(r) for _ in range(6)]
    root = add(k='man', defs=[dict(id=i, s=r.choice(kinds)) for i in ids], groups=[group(ids, kids[:2]), group(ids, kids[2:])])
    return T, root


PARAMS = dict(key_number=KeyNumber(5), aead_salt=77)


def walk(chk, T, root, i, rootname, encrypt=lambda k: False, graph=False, runs=1):
    r = chk.rng
    by_hash, packets, hashes = {}, {}, {}
    aead = AeadImpl(AeadParameters(key=AeadGcm(keybytes(16)), **PARAMS))

    def make(x):
        if x in hashes:
            return hashes[x]
        n = T[x - 1]
        name = None
        if n['k'] == 'man':
            hgs = []
            for g in n['groups']:
                gd = dict(sts=[], std=[], ls=[], ld=[], nc=[num(v) for v in g['nc']], ssid=[num(v) for v in g['ss']])
                hgs.append(b_hashgroup(dict(gd=[gd], ptrs=[make(k) for k in g['kids']])))
            nd = None
            if n['defs'] or x % 3 == 0:
                nd = b_nodedata(dict(sts=[num(x)] if x % 2 else [], std=[], loc=[], vend=[],
                                     ncs=[dict(id=num(d['id']), s=d['s']) for d in n['defs']]))
            node = Node(nd, hgs)
            m = aead.create_encrypted_manifest(node) if encrypt(x) else Manifest(node=node)
            co = m.content_object(name=b_name(rootname) if x == root else None)
        elif n['k'] == 'other':
            co = ContentObject(name=None, payload_type=PayloadType(1 + x % 2), payload=Payload(n['pl']))
        else:
            co = ContentObject.create_data(name=None, payload=Payload(n['pl']))
        b = bytes(Pk.create_content_object(co).serialize())
        h = dict(a=1, v=list(phash(b)))
        hashes[x] = h
        if n['k'] == 'missing':
            by_hash[(1, phash(b))] = (x, None)
        else:
            by_hash.setdefault((1, phash(b)), (x, b))
        return h
    rh = make(root)
    ks = InsecureKeystore()
    ks.add_aes_key(AeadParameters(key=AeadGcm(keybytes(16)), **PARAMS))
    store = OracleReader(by_hash)
    ok, e, sink, t = retrieve(store, b_name(rootname), b_hash(rh), ks, build_graph=graph)
    counts, again = [t.count()], []
    for _ in range(runs - 1):
        first = store.log
        store.log, sink.writes, before = [], [], sink.writes
        t.reset_count()
        ok2, _ = attempt(t.traverse, root_name=b_name(rootname), hash_restriction=b_hash(rh), seconds=60)
        counts.append(t.count())
        again.append(ok2 == ok and store.log == first and sink.writes == before)
        store.log, sink.writes = first, before
    dot = []
    if graph and ok:
        path = os.path.join(chk.dir, 'w.dot')
        ok2, _ = attempt(lambda: t.get_graph().save(path))
        dot = [read_dot(path)] if ok2 else [dict(nodes=[], edges=[], looks=[])]
    steps = 0

    def size(x):
        return 1 if T[x - 1]['k'] != 'man' else 2 + sum(size(k) for g in T[x - 1]['groups'] for k in g['kids'])
    # (identical objects are one)
    canon = lambda k: by_hash[(1, bytes(hashes[k]['v']))][0] if k in hashes else k
    T = [dict(n, groups=[dict(g, kids=[canon(k) for k in g['kids']]) for g in n['groups']]) for n in T]
    return dict(id=i, T=T, root=canon(root), steps=size(root) + 2, ok=ok, err=ename(e) if not ok else '',
                fetched=store.log[1:], out=[list(w) for w in sink.writes], counts=counts, again=again, graph=dot,
                hs=[hashes[k]['v'] if k in hashes else [] for k in range(1, len(T) + 1)])


def P18(chk):
    chk.model('NcScope')
    chk.exhaustive = ['all placements of 5 definition sets on the 4 manifests of a tree, under ' + chk.pick('2 of the', 'all') + ' 128 choices of constructor ids']
    r = chk.rng
    recs = []
    for j, d in enumerate(chk.generate('NcScopeGen')):
        for t in (r.sample(range(128), 2) if not chk.thorough else range(128)):
            nc = [1 + (t >> b & 1) for b in range(7)]
            recs.append(walk(chk, shape(d, nc), 1, f'enum {j} {t}', uri('root')))
    chk.count('enumerated', len(recs))
    for j in range(chk.pick(900, 10000)):
        T, root = rtree(r, r.random() < 0.4)
        p = r.choice([0, 0, 0.5, 1])
        recs.append(walk(chk, T, root, f'random {j}', uri('r'), encrypt=lambda k: r.random() < p, graph=r.random() < 0.2))
    for j in range(chk.pick(2, 8)):
        T, root = wide_tree(r)
        p = r.choice([0, 0.3])
        recs.append(walk(chk, T, root, f'wide {j}', uri('r'), encrypt=lambda k: r.random() < p))
    chk.count('errors', sum(not x['ok'] for x in recs))
    chk.count('completed', sum(x['ok'] for x in recs))
    chk.judge('NcScopeCheck', recs, describe=lambda r: f"{r['id']} {r['err']}: fetched " + ' '.join(
        ('/'.join(bytes(c['v']).hex() for c in f['name'][0]) if f['name'] else '-') + '#' + str(f['kid']) for f in r['fetched'])[:250])


# ---- P30 -------------------------------------------------------------------
SIGNERS = ['signer.pem', 'other.pem', 'wrap.pem']


def aes_params(num, ver):
    k = [keybytes(16), keybytes(16, 1), keybytes(32, 2), keybytes(16), keybytes(32, 3), keybytes(16)][ver - 1]
    cls = AeadCcm if ver in (3, 5) else AeadGcm
    return AeadParameters(key=cls(k), key_number=KeyNumber(num), aead_salt=[None, None, None, 9, 0, 0xFFFFFFFF][ver - 1])


WRAPPERS = ['wrap2', 'wrap2048']


def sealed(enc, node):
    p = aes_params(*enc[:2])
    if len(enc) == 2:
        return AeadImpl(p).create_encrypted_manifest(node)
    key = rsakey(WRAPPERS[(enc[2] or 1) - 1] + '.pub')
    w = RsaOaepWrapper.create_sha256(key_id=KeyId(key.keyid()), wrapped_key=WrappedKey.create(key, p))
    return RsaOaepImpl(wrapper=w, aead_params=p).create_encrypted_manifest(node, include_wrapper=enc[2] > 0)


class Trust:
    """The packets of a tree with signatures and encryption, and traversals of it."""

    def __init__(self, chk, T, root, name):
        r, self.T, self.root, self.name = chk.rng, T, root, name
        self.by_hash, self.hashes, self.hist = {}, {}, []
        self.names = r.choice(['hash', 'prefix', 'seg'])
        schema = dict(k=self.names, name=[] if self.names == 'hash' else [uri('c')], sfx=[[5]] if self.names == 'seg' else [],
                      loc=[[link_of(uri('l'))]] if self.names == 'hash' else [], flags=[])
        self.schema = schema
        self.make(r, root, 0)
        self.ks = InsecureKeystore()
        self.again()

    def signed(self, r, co, n, variant):
        if n['sig'] == 0:
            return Pk.create_content_object(co)
        s = Crc32cSigner() if n['sig'] == 1 else RsaSha256Signer(rsakey(SIGNERS[n['sig'] - 2]))
        alg = s.validation_alg()
        covered, by_, said = co, s, alg
        if n['bad'] and variant == 'key' and n['sig'] > 1:
            by_ = RsaSha256Signer(rsakey(SIGNERS[(n['sig'] - 1) % len(SIGNERS)]))
        elif n['bad'] and variant == 'body':
            covered = ContentObject.create_data(name=None, payload=Payload([1, 2, 3]))
        elif n['bad'] and variant == 'time' and n['sig'] > 1:
            said = type(alg)(keyid=alg.keyid(), signature_time=SignatureTime(alg.signature_time().timestamp() + 1))
        v = by_.sign(covered.serialize(), alg.serialize())
        if n['bad'] and (variant == 'flip' or (n['sig'] == 1 and variant in ('key', 'time'))):
            b = by(v.payload())
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            v = type(v)(b)
        return Pk.create_signed_content_object(co, said, v)

    def make(self, r, x, number):
        """(a node has one parent and one place, so that named trees are possible)"""
        n = self.T[x - 1]
        name = None
        if x == self.root:
            name = b_name(self.name)
        elif self.names == 'prefix':
            name = b_name(uri('c'))
        elif self.names == 'seg':
            name = b_name(uri('c')).append_chunk_id(number)
        if n['k'] == 'man':
            gd = dict(sts=[], std=[], ls=[], ld=[], nc=[num(4)], ssid=[num(20 * x)] if self.names == 'seg' else [])
            kids = [self.make(r, k, 20 * x + j) for j, k in enumerate(n['kids'])]
            cut = r.randint(0, len(kids))
            gd2 = dict(gd, ssid=[num(20 * x + cut)] if self.names == 'seg' else [])
            hgs = [b_hashgroup(dict(gd=[g], ptrs=k)) for g, k in ((gd, kids[:cut]), (gd2, kids[cut:])) if k or not kids]
            ncs = [dict(id=num(4), s=self.schema)] if x == self.root else []
            node = Node(b_nodedata(dict(sts=[num(x)], std=[], loc=[], vend=[], ncs=ncs)), hgs)
            m = sealed(n['enc'], node) if n['enc'] else Manifest(node=node)
            co = m.content_object(name=name)
        elif n['k'] == 'other':
            co = ContentObject(name=name, payload_type=PayloadType(1 + x % 2), payload=Payload(n['pl']))
        else:
            co = ContentObject.create_data(name=name, payload=Payload(n['pl']))
        b = bytes(self.signed(r, co, n, r.choice(['flip', 'key', 'body', 'time'])).serialize())
        self.by_hash[(1, phash(b))] = (x, b)
        self.hashes[x] = dict(a=1, v=list(phash(b)))
        return self.hashes[x]

    def again(self):
        self.store, self.sink = OracleReader(self.by_hash), Sink()
        self.t = Traversal(packet_input=self.store, data_writer=self.sink, keystore=self.ks)

    def rsa(self, s):
        self.ks.add_rsa_key(f'signer {s}', rsakey(SIGNERS[s - 1].replace('.pem', '.pub')))
        self.hist.append(dict(op='rsa', s=s))

    def aes(self, n, v):
        self.ks.add_aes_key(aes_params(n, v))
        self.hist.append(dict(op='aes', num=n, ver=v))

    def priv(self, w, on=True):
        self.ks.add_rsa_key(f'wrap {w}', rsakey(WRAPPERS[w - 1] + ('.pem' if on else '.pub')))
        self.hist.append(dict(op='priv', w=w, on=on))

    def walk(self, on=True):
        store, sink, t = self.store, self.sink, self.t
        if not on:
            store, sink = OracleReader(self.by_hash), Sink()
            t = Traversal(packet_input=store, data_writer=sink)
        store.log, sink.writes = [], []
        ok, e = attempt(t.traverse, root_name=b_name(self.name), hash_restriction=b_hash(self.hashes[self.root]), seconds=60)
        self.hist.append(dict(op='walk', on=on, ok=ok, fetched=[f['kid'] for f in store.log], out=[list(w) for w in sink.writes]))

    def record(self, i):
        return dict(id=i, T=self.T, root=self.root, steps=len(self.T) + 2, hist=self.hist)


def trust_tree(r):
    """every node has one parent; node 1 is the root"""
    T = []
    p_sig, p_bad, p_enc = r.choice([0, 0.3, 1]), r.choice([0, 0, 0.03, 0.15]), r.choice([0, 0.5, 1])
    ver = {n: r.randint(1, 6) for n in (0, 7, 70000)}

    def node(depth):
        x = len(T) + 1
        n = dict(k='data', pl=[x % 256] + [r.randrange(256) for _ in range(r.randint(0, 4))], kids=[], bad=False, enc=[],
                 sig=r.choice([0, 1, 2, 2, 3, 4]) if r.random() < p_sig else 0)
        T.append(n)
        n['bad'] = n['sig'] > 0 and r.random() < p_bad
        if depth == 0 or (depth < 4 and r.random() < 0.3):
            n.update(k='man', pl=[])
            if r.random() < p_enc:
                k = r.choice(list(ver))
                n['enc'] = [k, ver[k] if r.random() < 0.9 else r.randint(1, 6)]
                if n['enc'][1] > 3 and r.random() < 0.8:
                    n['enc'].append(r.choice([0, 1, 1, 2] if depth else [1, 1, 2]))
            n['kids'] = [node(depth + 1) for _ in range(r.randint(0 if depth else 1, 4))]
        elif r.random() < p_bad / 2:
            n['k'] = 'other'
        return x
    node(0)
    return T, ver


def P30(chk):
    chk.model('Walk')
    chk.model_breaks('Walk', 'WalkRootOnly.cfg')
    chk.exhaustive = ['a tree of 6 objects with one or two objects at fault (each kind of fault at each object), unsigned, checksummed or signed, '
                      'with and without a keystore, and again after the keystore learnt what was missing']
    r = chk.rng
    recs = []
    for j, g in enumerate(chk.generate('WalkGen')):
        kids = [[2, 3, 4], [], [5, 6], [], [], []]
        T = [dict(k='man' if x in (1, 3) else 'data', pl=[] if x in (1, 3) else [x, 0], kids=kids[x - 1], sig=g['base'], bad=False, enc=[]) for x in range(1, 7)]
        for x, l in zip(g['at'], g['look']):
            T[x - 1].update(sig=l['sig'] or g['base'], bad=l['bad'], enc=l['enc'])
            if l['other']:
                T[x - 1].update(k='other', pl=[x, 1], kids=[])
        t = Trust(chk, T, 1, uri('root'))
        t.rsa(1)
        t.walk(g['on'])
        t.priv(1, j % 4 > 0)
        t.walk(g['on'])
        t.aes(7, 1)
        t.walk(g['on'])
        t.rsa(2)
        t.walk(g['on'])
        t.aes(7, 2)
        if j % 2:
            t.again()
        t.walk(g['on'])
        recs.append(t.record(f'enum {j}'))
    chk.count('enumerated', len(recs))
    for j in range(chk.pick(400, 5000)):
        T, ver = trust_tree(r)
        t = Trust(chk, T, 1, uri(f'r{j}'))
        if r.random() < 0.7:
            for s in (1, 2, 3):
                t.rsa(s)
            if r.random() < 0.5:
                t.priv(1)
                t.priv(2)
            for n, v in ver.items():
                if r.random() < 0.6:
                    t.aes(n, v)
        for _ in range(r.randint(1, 8)):
            x = r.random()
            if x < 0.2:
                t.rsa(r.randint(1, 3))
            elif x < 0.4:
                n = r.choice(list(ver))
                t.aes(n, ver[n] if r.random() < 0.7 else r.randint(1, 6))
            elif x < 0.5:
                t.priv(r.randint(1, 2), r.random() < 0.7)
            elif x < 0.6:
                t.again()
            else:
                t.walk(r.random() < 0.85)
        t.walk()
        recs.append(t.record(f'random {j}'))
    for x in recs:
        for h in x['hist']:
            if h['op'] == 'walk':
                chk.count('completed' if h['ok'] else 'refused')
    chk.judge('WalkCheck', recs, describe=lambda r: f"{r['id']}: " + ' '.join(
        f"{h['op']}{h.get('s', '')}{h.get('num', '')}{h.get('w', '')}" + (('+' if h['ok'] else '-') + str(h['fetched']) if h['op'] == 'walk' else '') for h in r['hist'])[:300])
