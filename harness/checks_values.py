"""P20, P21, P26: names, times and other values (spec/Names.tla, NameCheck.tla, Times.tla)."""
import itertools
from publish import *
import time
from datetime import datetime, timedelta, timezone
import wirecases as wc
from ccnpy.core.Packet import Packet as Pk
from ccnpy.core.SignatureTime import SignatureTime
from ccnpy.core.Tlv import Tlv
from ccnpy.core.ValidationAlg import ValidationAlg_RsaSha256


# ---- P21 -------------------------------------------------------------------
def c_value(v, how):
    return [lambda: bytes(v), lambda: arr(v), lambda: list(v)][how % 3]()


def uri_text(comps):
    return 'ccnx:/' + '/'.join(bytes(c['v']).decode() for c in comps)


def name_ops(ops, i, r):
    heap, obs = [], []
    for k, op in enumerate(ops):
        how = r.randrange(6)

        def make():
            o = op['op']
            if o == 'uri':
                return Name.from_uri(uri_text(op['comps']))
            if o == 'build':
                cs = op['comps']
                if how == 0:
                    n = Name([])
                    for c in cs:
                        n = n.append(NameComponent(c['t'], bytes(c['v'])))
                    return n
                if how == 1 and cs and cs[-1]['t'] == 1:
                    return Name([NameComponent(c['t'], bytes(c['v'])) for c in cs[:-1]] + [NameComponent.create_name_segment(bytes(cs[-1]['v']))])
                if how == 2 and cs:
                    n = Name()                          # no components yet
                    for c in cs:
                        n = n.append(NameComponent(c['t'], arr(c['v'])))
                    return n
                return Name([NameComponent(c['t'], c_value(c['v'], how)) for c in cs])
            b = heap[op['i'] - 1]
            if o == 'append':
                return b.append(NameComponent(op['c']['t'], c_value(op['c']['v'], how)))
            if o == 'chunk':
                return b.append_chunk_id(denum(op['n'])) if how % 2 else b.append(NameComponent.create_chunk_segment(denum(op['n'])))
            if o == 'manifest':
                return b.append_manifest_id(denum(op['n'])) if how % 2 else b.append(NameComponent.create_manifest_id(denum(op['n'])))
            return Name.parse(Tlv.deserialize(arr(by(b.serialize()))))
        ok, n = attempt(make)
        heap.append(n if ok else None)
        if not ok:
            break
    ops = ops[:len(heap)]
    for n, op in zip(heap, ops):
        def see():
            texts = []
            for k in range(n.count()):
                ok, t = attempt(n.__getitem__, k)
                texts.append([list(t.encode())] if ok and isinstance(t, str) else [by(t)] if ok else [])
            return dict(ok=True, comps=p_name(n), bytes=by(n.serialize()), texts=texts, uri=op['op'] == 'uri')
        ok, o = attempt(see) if n is not None else (False, None)
        obs.append(o if ok else dict(ok=False, comps=[], bytes=[], texts=[], uri=False))
    eqs = []
    good = [j for j, o in enumerate(obs) if o['ok']]
    for a, b in itertools.product(good, good):
        ok, e = attempt(lambda: (bool(heap[a] == heap[b]), bool(heap[a] != heap[b])))
        eqs.append(dict(i=a + 1, j=b + 1, ok=ok and e[0] != e[1], eq=bool(ok and e[0])))
    return dict(t='names', id=f'{i}: {uri_text(ops[0]["comps"]) if ops and ops[0]["op"] == "uri" else ""}', ops=ops, obs=obs, eqs=eqs)


SEG = "abcXYZ019-._~:@!$&'()*+,=%äß漢😀 ;|{}^`\"<>"


def rseg(r):
    while True:
        s = ''.join(r.choice(SEG) for _ in range(r.choice([1, 1, 2, 3, 8, 40]))) if r.random() < 0.8 else \
            r.choice(['a', 'b', 'ab', 'ccnx:', '%2F', '%00', '...', '.a', 'a.', 'a=b', 'a;b', 'Name=a', '0', '00'])
        if s not in ('.', '..'):
            return s


def P21(chk):
    r = chk.rng
    chk.model('Names')
    chk.exhaustive = ['all sequences of up to 3 (thorough 4) operations on a few names']
    recs = []
    for j, g in enumerate(chk.generate('NameGen', chk.pick('NameGen.cfg', 'NameGenBig.cfg'))):
        recs.append(name_ops(g['ops'], f'enum {j}', r))
    chk.count('enumerated', len(recs))
    for j in range(chk.pick(1500, 15000)):
        ops = []
        for k in range(r.randint(1, 9)):
            o = r.choice(['uri', 'build', 'append', 'chunk', 'manifest', 'parse', 'append', 'chunk']) if ops else r.choice(['uri', 'uri', 'build'])
            op = dict(op=o)
            if o == 'uri':
                op['comps'] = [comp(1, rseg(r)) for _ in range(r.choice([0, 1, 1, 2, 3, 12]) if j % 300 else r.randrange(256, 400))]
            elif o == 'build':
                op['comps'] = r.choice(ops).get('comps', []) if ops and r.random() < 0.5 else wc.rname(r)
            else:
                op['i'] = r.randint(1, len(ops))
                if o == 'append':
                    op['c'] = wc.rname(r)[:1] or [comp(1, 'z')]
                    op['c'] = op['c'][0]
                elif o != 'parse':
                    op['n'] = wc.rnum(r)
            ops.append(op)
        recs.append(name_ops(ops, f'random {j}', r))
    for t in ['', '/', '/a/b', 'a/b', 'a', 'http:/a/b', 'http://a/b', 'ccn:/a', 'ccnxx:/a', 'lci:/a', 'ndn:/a', 'file:///a', '//a/b', ':/a', 'cnx:/a/b']:
        ok, n = attempt(Name.from_uri, t)
        recs.append(dict(t='refuse', id=f'refuse {t!r}', ok=ok))
    for j in range(chk.pick(60, 600)):
        t = r.choice(['', '/', 'x:/', 'ccn:/', 'xccnx:/', 'http:/', '//']) + '/'.join(rseg(r).replace(':', '') for _ in range(r.randint(1, 3)))
        ok, n = attempt(Name.from_uri, t)
        recs.append(dict(t='refuse', id=f'refuse {t!r}', ok=ok))
    chk.judge('NameCheck', recs, describe=lambda r: r['id'] + ' ' + json.dumps(r.get('ops', ''))[:250])


# ---- P20 -------------------------------------------------------------------
def v_make(k, a, how):
    """an object of kind k with the abstract value a, built in one of several ways"""
    if k == 'name':
        cs = [NameComponent(c['t'], c_value(c['v'], how)) for c in a]
        n = Name(cs)
        if how == 3:
            n = Name([])
            for c in cs:
                n = n.append(c)
        return Name.parse(Tlv.deserialize(arr(by(n.serialize())))) if how >= 4 else n
    if k == 'tlv':
        if how == 3:
            return NameComponent(a['t'], bytes(a['v']))
        t = Tlv(a['t'], c_value(a['v'], how))
        return Tlv.deserialize(arr(by(t.serialize()))) if how >= 4 else t
    if k == 'hash':
        h = HashValue(a['a'], c_value(a['v'], how))
        return HashValue.deserialize(arr(by(h.serialize()))) if how >= 3 else h
    if k == 'link':
        l = Link(name=deopt(lambda x: v_make('name', x, how), a['name']), keyid=deopt(lambda x: v_make('hash', x, how), a['keyid']),
                 digest=deopt(lambda x: v_make('hash', x, how), a['digest']))
        return Link.deserialize(arr(by(l.serialize()))) if how >= 3 else l
    if k == 'ptrs':
        p = Pointers([v_make('hash', x, how) for x in a])
        return Pointers.parse(Tlv.deserialize(arr(by(p.serialize())))) if how >= 3 else p
    if k == 'payload':
        p = Payload(c_value(a, how))
        return Payload.parse(Tlv.deserialize(arr(by(p.serialize())))) if how >= 3 else p
    if k in FIELDS:
        cls, b = FIELDS[k][:2]
        o = b(a)
        return (cls or type(o)).parse(Tlv.deserialize(arr(by(o.serialize())))) if how >= 3 else o
    o = BUILD[k](a)
    return PARSE[k](by(o.serialize())) if how >= 3 else o


from ccnpy.core.FinalChunkId import FinalChunkId
from ccnpy.core.ValidationAlg import ValidationAlg
from ccnpy.flic.tlvs.SecurityCtx import SecurityCtx
from ccnpy.flic.tlvs.NcSchema import NcSchema
import wirebind as wb
from ccnpy.core.Pad import Pad
NUMS = dict(NcId=NcId, StartSegmentId=StartSegmentId, SubtreeSize=SubtreeSize, LeafSize=LeafSize, KeyNumber=KeyNumber, KdfAlg=KdfAlg, HashAlg=wb.HashAlg, AeadMode=wb.AeadMode)
OCTETS = dict(EncryptedNode=EncryptedNode, AuthTag=AuthTag, KdfInfo=KdfInfo, ProtocolFlags=ProtocolFlags, Payload=Payload, ValidationPayload=ValidationPayload,
              Nonce=Nonce, WrappedKey=wb.WrappedKey)
DIGESTS = dict(SubtreeDigest=SubtreeDigest, LeafDigest=LeafDigest, KeyId=KeyId)
TIMES = dict(ExpiryTime=ExpiryTime, SignatureTime=SignatureTime)
of = lambda cs, f: lambda r: dict(c=r.choice(sorted(cs)), v=f(r))
# kind: class (None: that of the object), build, abstract value
FIELDS = dict(
    num=(None, lambda a: NUMS[a['c']](denum(a['v'])), of(NUMS, wc.rnum)),
    octets=(None, lambda a: OCTETS[a['c']](arr(a['v'])), of(OCTETS, lambda r: wc.rbytes(r, r.choice([0, 1, 8, 12])))),
    digest=(None, lambda a: DIGESTS[a['c']](b_hash(a['v'])), of(DIGESTS, wc.rhash)),
    time=(None, lambda a: b_time(TIMES[a['c']], a['v']), of(TIMES, wc.rtime)),
    co=(None, wb.b_co, lambda r: wc.rco(r, False, 0.1)),
    alg=(ValidationAlg, lambda a: BUILD['packet'](dict(co=dict(name=[], exp=[], pt=[], pl=[], fc=[]), val=[dict(a, sig=[1])])).validation_alg(),
         lambda r: dict(wc.rval(r), sig=[])),
    ptype=(None, lambda a: PayloadType(a), lambda r: r.randrange(4)),
    fchunk=(None, lambda a: FinalChunkId(denum(a)), wc.rnum),
    locs=(None, wb.b_locs, wc.rlocs),
    schema=(NcSchema, wb.b_schema, wc.rschema),
    ncdef=(None, wb.b_ncdef, lambda r: dict(id=wc.rnum(r), s=wc.rschema(r))),
    vendor=(None, lambda v: Vendor(denum(v['pen']), arr(v['pl'])), lambda r: dict(pen=wc.rbytes(r, 3), pl=wc.rbytes(r, wc.rlen(r)))),
    suffix=(None, lambda n: SuffixComponentType(n), lambda r: r.choice([5, 16, 0, 1, 255, 256, 65535])),
    nodedata=(None, b_nodedata, wc.rnodedata),
    groupdata=(None, wb.b_groupdata, wc.rgroupdata),
    hashgroup=(None, b_hashgroup, lambda r: wc.rnode(r)['hgs'][0]),
    node=(None, b_node, lambda r: wc.rnode(r, False)),
    pad=(None, lambda n: Pad(n), lambda r: r.choice([0, 1, 2, 50, 300])),
    keylink=(None, lambda a: wb.KeyLink(wb.b_link(a)), wc.rlink),
    kdf=(None, lambda k: wb.KdfData(KdfAlg(denum(k['alg'])), deopt(lambda i: KdfInfo(list(i)), k['info'])),
         lambda r: dict(alg=wc.rnum(r), info=wc.ropt(r, lambda: wc.rbytes(r, r.choice([0, 1, 8]))))),
    ctx=(SecurityCtx, wb.b_ctx, wc.rctx))


def v_drop(r, a):
    """without one optional part, or with one part as in another value"""
    ks = [q for q in a if isinstance(a[q], list) and a[q]]
    return dict(a, **{r.choice(ks): []}) if ks else a


def v_abs(r, k):
    if k in FIELDS:
        return FIELDS[k][2](r)
    if k == 'name':
        return wc.rname(r)
    if k == 'tlv':
        return dict(t=r.choice([0, 1, 1, 5, 7, 16, 300]), v=wc.rbytes(r, r.choice([0, 1, 2, 32])))
    if k == 'hash':
        return wc.rhash(r)
    if k == 'link':
        return wc.rlink(r)
    if k == 'ptrs':
        return [wc.rhash(r) for _ in range(r.randrange(4))]
    if k == 'payload':
        return wc.rbytes(r, r.choice([0, 1, 5, 40]))
    a = wc.rpacket(r, False) if k == 'packet' else wc.rmanifest(r)
    if k == 'manifest' and a['node']:
        a['node'][0]['pad'] = []                # the parser drops padding
    return a


def v_near(r, k, a):
    """another value, close to a: often the same bytes in another shape"""
    if r.random() < 0.15:
        return v_abs(r, k)
    a = json.loads(json.dumps(a))

    def flip(v):
        if v:
            i = r.randrange(len(v))
            v[i] ^= 1 << r.randrange(8)
        else:
            v.append(0)
    if k == 'name':
        x = r.random()
        if x < 0.3 and a:
            i = r.randrange(len(a))
            c = a[i]
            cut = r.randint(0, len(c['v']))
            a[i:i + 1] = [dict(t=c['t'], v=c['v'][:cut]), dict(t=c['t'], v=c['v'][cut:])]
        elif x < 0.5 and a:
            a[-1]['t'] = r.choice([1, 5, 16, 2])
        elif x < 0.7 and a:
            flip(r.choice(a)['v'])
        elif x < 0.85:
            a.reverse()
        else:
            a.append(comp(1, ''))
    elif k == 'tlv':
        if r.random() < 0.5:
            a['t'] ^= r.choice([1, 256])
        else:
            flip(a['v'])
    elif k == 'hash':
        if r.random() < 0.5:
            a['a'] = 3 - a['a'] if a['a'] in (1, 2) else 1
        else:
            flip(a['v'])
    elif k == 'link':
        x = r.random()
        if x < 0.5:
            a['keyid'], a['digest'] = a['digest'], a['keyid']
        elif a['name']:
            a['name'] = [v_near(r, 'name', a['name'][0])]
        else:
            a['name'] = [[]]
    elif k == 'ptrs':
        if r.random() < 0.5:
            a.reverse()
        elif a:
            a[-1] = v_near(r, 'hash', a[-1])
    elif k == 'payload':
        flip(a)
    elif k in ('num', 'octets', 'digest', 'time'):
        if r.random() < 0.6:                        # the same value in a field of another type
            a['c'] = FIELDS[k][2](r)['c']
        elif k == 'num':
            a['v'] = num(denum(a['v']) ^ (1 << r.randrange(20)))
        elif k == 'time':
            a['v'] = num(denum(a['v']) + 1)
        elif k == 'octets':
            flip(a['v'])
        else:
            a['v'] = v_near(r, 'hash', a['v'])
    elif k == 'keylink':
        return v_near(r, 'link', a)
    elif k == 'kdf':
        return dict(a, info=[] if a['info'] else [wc.rbytes(r, 3)])
    elif k in ('co', 'nodedata', 'groupdata'):
        return v_drop(r, a)
    elif k == 'node' and a['nd']:
        return dict(a, nd=[v_drop(r, a['nd'][0])] if r.random() < 0.5 else [])
    elif k == 'ncdef':
        return dict(a, s=wc.rschema(r)) if r.random() < 0.5 else dict(a, id=num(denum(a['id']) ^ 1))
    elif k == 'schema':
        return dict(a, loc=[] if a['loc'] else [wc.rlocs(r)])
    elif k == 'locs':
        return a[::-1] if r.random() < 0.5 else a + a[:1]
    elif k == 'packet' and r.random() < 0.5:
        return dict(a, co=v_drop(r, a['co']))
    elif k == 'packet' and a['val'] and r.random() < 0.5:
        return dict(a, val=[])
    elif k == 'packet':
        return v_abs(r, k) if not a['co']['pl'] else dict(a, co=dict(a['co'], pl=[v_near(r, 'payload', a['co']['pl'][0])]))
    else:
        return v_abs(r, k)
    return a


def item(x):
    return [x] if isinstance(x, int) else by(x) if isinstance(x, (bytes, arr([]).__class__)) else by(x.serialize())


def v_iterate(o, r, use):
    """several iterations over one object, interleaved with each other and with other uses of it"""
    n, its, events = r.randint(1, 3), {}, []

    def add(j, e, v=()):
        events.append(dict(it=j, e=e, v=list(v)))
    for _ in range(r.choice([6, 20, 60])):
        j = r.randint(1, n)
        if j not in its or r.random() < 0.08:
            its[j] = iter(o)
            add(j, 'start')
        ok, x = attempt(lambda: next(its[j], None))
        if not ok:
            add(j, 'raised')
            break
        if x is None:
            add(j, 'end')
            del its[j]
        else:
            add(j, 'item', item(x))
        if r.random() < 0.15:
            use()
    for j in its:
        ok, rest = attempt(list, its[j])
        for x in rest if ok else []:
            add(j, 'item', item(x))
        add(j, 'end' if ok else 'raised')
    return n, events


def v_use(o, k, r, others):
    """does something with the object that must leave it as it is"""
    def iterate():
        for x in o:
            pass

    def interrupted():
        for j, x in enumerate(o):
            if j == 2:
                break

    def nested():
        for j, x in enumerate(o):
            for y in o:
                if j > 3:
                    break
            if j > 5:
                break
    uses = [lambda: repr(o), lambda: str(o), lambda: f'{o}', lambda: len(o), lambda: hash(o), lambda: bool(o), lambda: o == r.choice(others),
            lambda: o != r.choice(others), lambda: o in others, iterate, interrupted, nested,
            lambda: Tlv(77, o), lambda: Tlv(77, [o, o]), lambda: Tlv.flatten([o, 1])]
    if k == 'name':
        uses += [lambda: o.append(NameComponent(1, b'zz')), lambda: o.append_chunk_id(r.randrange(70000)), lambda: o.append_manifest_id(3),
                 lambda: o.append(NameComponent(1, b'zz')).append_chunk_id(1).append_manifest_id(2), lambda: o.as_uri(), lambda: o.count(),
                 lambda: o[0], lambda: o[-1], lambda: o.component(0).value(), lambda: Link(name=o), lambda: Locators.from_name(o),
                 lambda: ContentObject.create_data(name=o, payload=Payload([1])), lambda: Name.parse(Tlv.deserialize(o.serialize()))]
    elif k == 'tlv':
        uses += [lambda: o.extend(Tlv(1, [1, 2])), lambda: o.extend(o), lambda: o.value(), lambda: o.value_as_number(), lambda: o.length(),
                 lambda: Tlv.deserialize(o.serialize())]
    elif k == 'hash':
        uses += [lambda: {o: 1}[o], lambda: Pointers([o, o]), lambda: Link(digest=o, keyid=o), lambda: HashValue.deserialize(o.serialize()),
                 lambda: HashGroup(pointers=Pointers([o])), lambda: o.value()]
    elif k == 'link':
        uses += [lambda: Locator(o), lambda: KeyLink(o), lambda: Link.deserialize(o.serialize()), lambda: o.name().append_chunk_id(1)]
    elif k == 'ptrs':
        uses += [lambda: HashGroup(pointers=o), lambda: Node(None, [HashGroup(pointers=o)]), lambda: o[0], lambda: Pointers.parse(Tlv.deserialize(o.serialize()))]
    elif k == 'payload':
        uses += [lambda: o.value(), lambda: o.value_bytes(), lambda: ContentObject.create_data(name=None, payload=o), lambda: Payload.parse(Tlv.deserialize(o.serialize()))]
    elif k == 'packet':
        uses += [lambda: o.content_object_hash(), lambda: o.body().serialize(), lambda: o.header().serialize(), lambda: o.body().name().append_chunk_id(7),
                 lambda: Pk.deserialize(o.serialize()), lambda: o.body() == o.body(), lambda: Pk.create_content_object(o.body()),
                 lambda: o.save('/dev/null'), lambda: o.validation_alg().serialize(), lambda: repr(o.body())]
    elif k in FIELDS:
        def read():
            for m in r.sample(dir(o), 12):
                f = getattr(o, m, None)
                if not m.startswith('_') and callable(f) and not isinstance(f, type):
                    attempt(lambda: repr(f()))
        uses += [read, read, read, lambda: type(o).parse(Tlv.deserialize(o.serialize())), lambda: o.serialized_value()]
    else:
        uses += [lambda: list(o.hash_values()), lambda: next(o.hash_values()), lambda: o.content_object(name=Name.from_uri('ccnx:/x')), lambda: o.packet(),
                 lambda: Manifest.deserialize(o.serialize()), lambda: o.node().serialized_value(), lambda: o.node().hash_groups()[0].pointers()[0],
                 lambda: [x for x in o.node().hash_groups()[0].pointers()], lambda: repr(o.node())]
    attempt(r.choice(uses))


KINDS = ['name', 'tlv', 'hash', 'link', 'ptrs', 'payload', 'packet', 'manifest', 'packet', 'num', 'octets', 'digest', 'time', 'co', 'alg', 'ptype', 'fchunk',
         'locs', 'schema', 'ncdef', 'vendor', 'suffix', 'nodedata', 'groupdata', 'hashgroup', 'node', 'ctx', 'pad', 'keylink', 'kdf']
STRICT = set(KINDS)
ITERABLE = {'tlv', 'hash', 'link', 'ptrs', 'time', 'locs'}


def same_bytes(k, a):
    """values of other kinds with the same wire format, where there are any"""
    if k == 'name':
        return [('tlv', dict(t=0, v=[x for c in a for x in list(c['t'].to_bytes(2, 'big')) + list(len(c['v']).to_bytes(2, 'big')) + c['v']]))]
    if k == 'hash':
        return [('tlv', dict(t=a['a'], v=a['v']))] + ([('payload', a['v'])] if a['a'] == 1 else [])
    if k == 'payload':
        return [('tlv', dict(t=1, v=a)), ('hash', dict(a=1, v=a))]
    if k == 'tlv' and a['t'] == 1:
        return [('payload', a['v']), ('hash', dict(a=1, v=a['v']))]
    if k == 'link' and a['name'] and not a['keyid'] and not a['digest']:
        return [('name', a['name'][0])]
    return []


def P20(chk):
    r = chk.rng
    chk.model('Names')
    chk.model('Iterators')
    chk.model_breaks('Iterators', 'IteratorsShared.cfg')
    recs = []
    for j in range(chk.pick(1200, 12000)):
        k = KINDS[j % len(KINDS)]
        specs = [(k, v_abs(r, k))]
        specs += [specs[0]] + [(k, v_near(r, k, specs[0][1])) for _ in range(3)]
        specs += same_bytes(*specs[0]) or [(q, v_abs(r, q)) for q in r.sample(KINDS, 1)]
        specs += [(q, v_abs(r, q)) for q in r.sample(KINDS, 1)]
        if r.random() < 0.5:
            specs.append(specs[2])
        objs, rec = [], dict(t='values', id=f'values {j} {k}', objs=[], ops=[])
        for q, a in specs:
            ok, o = attempt(v_make, q, a, r.randrange(6))
            if not ok:
                chk.violation('built', dict(k=q, abs=a), f'{q} {a}: {ename(o)} {o}')
                continue
            objs.append((q, o))
            rec['objs'].append(dict(k=q, abs=a, bytes=by(o.serialize())))
        others = [o for _, o in objs]
        pairs = [(x, y) for x in range(len(objs)) for y in range(len(objs)) if x != y or r.random() < 0.3]
        r.shuffle(pairs)

        def compare(x, y):
            a, b = objs[x][1], objs[y][1]
            ok, e = attempt(lambda: (bool(a == b), bool(a != b)))
            rec['ops'].append(dict(op='eq', i=x + 1, j=y + 1, ok=ok, eq=bool(ok and e[0]), ne=bool(ok and e[1])))
            ok, e = attempt(lambda: hash(a) == hash(b))
            if ok:
                rec['ops'].append(dict(op='hash', i=x + 1, j=y + 1, same=bool(e)))
        for x, y in pairs:
            if objs[x][0] == objs[y][0] or (objs[x][0] in STRICT and objs[y][0] in STRICT) or \
                    (objs[x][0] in STRICT and r.random() < 0.5):
                compare(x, y)
            z = r.randrange(len(objs))
            v_use(objs[z][1], objs[z][0], r, others)
            if r.random() < 0.2:
                rec['ops'].append(dict(op='ser', i=z + 1, bytes=by(objs[z][1].serialize())))
        for x, (q, o) in enumerate(objs):
            if q in STRICT:
                for f in (None, 5, 'a', b'a', [], object()):
                    ok, e = attempt(lambda: (bool(o == f), bool(f == o), bool(o != f)))
                    if not ok or e != (False, False, True):
                        chk.violation('foreign', dict(k=q, bytes=by(o.serialize())), f'{q} compared with {f!r}: {e if ok else ename(e)}')
            if q in ITERABLE:
                n, events = v_iterate(o, r, lambda: v_use(o, q, r, others))
                rec['ops'].append(dict(op='iter', i=x + 1, n=n, events=events))
            for _ in range(4):
                v_use(o, q, r, others)
                rec['ops'].append(dict(op='ser', i=x + 1, bytes=by(o.serialize())))
        for x, y in pairs[:12]:
            if objs[x][0] == objs[y][0]:
                compare(x, y)
        recs.append(rec)
    chk.count('objects', sum(len(x['objs']) for x in recs))
    chk.count('iterations', sum(o['n'] for x in recs for o in x['ops'] if o['op'] == 'iter'))
    chk.count('operations', sum(len(x['ops']) for x in recs))
    chk.judge('NameCheck', recs, describe=lambda r: r['id'] + ' ' + json.dumps([dict(k=o['k'], abs=o['abs']) for o in r['objs'][:3]])[:300])


# ---- P26 -------------------------------------------------------------------
def dt_fields(dt):
    off = dt.utcoffset()
    return dict(y=dt.year, mo=dt.month, d=dt.day, h=dt.hour, mi=dt.minute, s=dt.second, us=dt.microsecond,
                off=off.days * 86400 + off.seconds)


def ms8(x):
    return list(int(x).to_bytes(8, 'big'))


def time_rec(dt, cls, how, i, other):
    rec = dict(t=dt_fields(dt), id=f'{i} {cls.__name__} {dt.isoformat()} how {how}', raw=how == 5, ok=False, type=cls.class_type())

    def go():
        if how == 1 and cls is SignatureTime:
            x = ValidationAlg_RsaSha256(keyid=rsakey('signer.pub').keyid(), signature_time=dt).signature_time()
        elif how == 2 and cls is SignatureTime:
            x = RsaSha256Signer(rsakey('signer.pem')).validation_alg(signature_time=dt).signature_time()
        elif how == 3 and cls is ExpiryTime:
            x = Pk.create_content_object(ContentObject.create_data(name=None, payload=Payload([1]), expiry_time=cls.from_datetime(dt))).body().expiry_time()
        elif how == 5:
            x = cls(dt.timestamp())
        elif how == 6 and cls is ExpiryTime:
            x = ContentObject.create_data(payload=[1], expiry_time=dt).expiry_time()
        elif how == 7 and cls is ExpiryTime:
            x = ContentObject.create_manifest(Name.from_uri('ccnx:/m'), expiry_time=dt).expiry_time()
        elif how == 8 and cls is ExpiryTime:
            x = ContentObject.create_link(Link(name=Name.from_uri('ccnx:/t')), Name.from_uri('ccnx:/l'), expiry_time=dt).expiry_time()
        else:
            x = cls.from_datetime(dt)
        w = by(x.serialize())
        if how == 4 and cls is ExpiryTime:
            p = Pk.deserialize(arr(by(Pk.create_content_object(ContentObject.create_data(name=None, payload=Payload([1]), expiry_time=x)).serialize()))).body().expiry_time()
        elif how == 4:
            p = ValidationAlg_RsaSha256.parse(Tlv.deserialize(arr(by(ValidationAlg_RsaSha256(keyid=rsakey('signer.pub').keyid(), signature_time=x).serialize())[4:]))).signature_time()
        else:
            p = cls.parse(Tlv.deserialize(arr(w)))
        rec.update(wire=w, ms=ms8(x.milliseconds()), pms=ms8(p.milliseconds()), pwire=by(p.serialize()), eq=bool(x == p and p == x),
                   neq=bool(x != p), back=dt_fields(p.datetime()))
        o = dt.astimezone(other)
        y = cls(o.timestamp()) if how == 5 else cls.from_datetime(o)
        rec.update(same=by(y.serialize()) == w and bool(y == x), ok=True)
    ok, e = attempt(go)
    if not ok:
        rec['id'] += f' {ename(e)} {e}'
    return rec


def P26(chk):
    r = chk.rng
    chk.model('Times', chk.pick('Times.cfg', 'TimesBig.cfg'))
    recs = []

    def zone():
        return timezone(timedelta(seconds=r.choice([0, 0, 3600, -18000, 19800, 20700, -12600, 50400, -43200, 1172, -14399, r.randrange(-86399, 86400)])))
    days = [(1970, 1, 1), (1970, 1, 2), (1972, 2, 29), (1999, 12, 31), (2000, 1, 1), (2000, 2, 29), (2000, 3, 1), (2024, 2, 29), (2038, 1, 19), (2100, 2, 28),
            (2100, 3, 1), (2106, 2, 7), (2242, 3, 16), (2400, 2, 29), (9999, 12, 30)]
    n = chk.pick(9000, 120000)
    for j in range(n):
        y, mo, d = r.choice(days) if r.random() < 0.35 else (r.choice([r.randint(1970, 2100), r.randint(1970, 9998)]), r.randint(1, 12), r.randint(1, 28))
        us = r.choice([0, 1, 499, 500, 501, 999, 1000, 999000, 999499, 999500, 999501, 999999, 123456, 1000 * r.randrange(1000),
                       1000 * r.randrange(1000) + r.choice([499, 501, 500, 1, 999]), r.randrange(1000000)])
        tz = zone()
        h, mi, s = r.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0)]) if r.random() < 0.3 else (r.randrange(24), r.randrange(60), r.randrange(60))
        dt = datetime(y, mo, d, h, mi, s, us, tzinfo=timezone.utc)
        try:
            dt = dt.astimezone(tz)
        except OverflowError:
            pass
        recs.append(time_rec(dt, [ExpiryTime, SignatureTime][j % 2], r.randrange(9), j, r.choice([timezone.utc, timezone(timedelta(hours=r.randint(-12, 12)))])))
    # the clock
    for cls in (ExpiryTime, SignatureTime):
        for k in range(20):
            a = time.time()
            ok, x = attempt(cls.now)
            ok, ms = (ok, x.milliseconds()) if ok else (False, 0)
            if not ok or not a * 1000 - 1 <= ms <= time.time() * 1000 + 1:
                chk.violation('now', dict(cls=cls.__name__, ms=ms, at=a), f'{cls.__name__}.now() is {ms} ms at {a} s')
    chk.judge('TimeCheck', recs, describe=lambda r: r['id'])
