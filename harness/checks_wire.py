"""P09, P10, P11, P12: the wire formats (spec/Wire.tla, Sha256.tla, WireGen.tla, WireCheck.tla)."""
import hashlib
from common import *
from wirebind import *
import wirecases as wc


def round_trip(chk, k, a, i, path):
    r = dict(t='rt', id=f'{k}-{i}', k=k, abs=a, built=False)
    ok, o = attempt(BUILD[k], a)
    if not ok:
        r['err'] = ename(o)
        return r
    ok, b = attempt(lambda: by(o.serialize()))
    if not ok:
        r['err'] = ename(b)
        return r
    r.update(built=True, bytes=b, len=len(o), parsed=False, projected=False, abs2=0, bytes2=[], eq=False,
             load=dict(ok=False), walk=dict(ok=False))
    ok, p = attempt(PARSE[k], b)
    if ok:
        r['parsed'] = True
        ok, a2 = attempt(PROJECT[k], p)
        if ok:
            r.update(projected=True, abs2=a2)
        ok, b2 = attempt(lambda: by(p.serialize()))
        if ok:
            r['bytes2'] = b2
        ok, eq = attempt(lambda: p == o and o == p and not (p != o))
        r['eq'] = bool(ok and eq)
        if k == 'manifest' and a['node']:
            ok, w = attempt(p_walk, p)
            ok2, w2 = attempt(p_walk, o)
            r['walk'] = dict(ok=True, v=w) if ok and ok2 and w == w2 else dict(ok=False)
        if k == 'packet':
            def io():
                o.save(path)
                with open(path, 'rb') as f:
                    raw = f.read()
                q = Packet.load(path)
                return dict(ok=True, file=list(raw), bytes=by(q.serialize()), eq=bool(q == o))
            ok, l = attempt(io)
            if ok:
                r['load'] = l
    return r


def wire_rt(chk, k, n_random):
    gen = chk.generate('WireGen', env=dict(WHICH=k))
    chk.count('enumerated_values', len(gen))
    path = os.path.join(chk.dir, 'x.bin')
    recs = [round_trip(chk, k, g['abs'], i, path) for i, g in enumerate(gen)]
    f = wc.rpacket if k == 'packet' else wc.rmanifest
    for i in range(n_random):
        recs.append(round_trip(chk, k, f(chk.rng), f'r{i}', path))
    # very long values: up to what a 16-bit length can hold
    r = chk.rng
    if k == 'packet':
        for n in (65535 - 8 - 4 - 4, 65000, 32768, 65535 - 8 - 4 - 4 - 1):
            recs.append(round_trip(chk, k, dict(co=dict(name=[], exp=[], pt=[], pl=[wc.rbytes(r, n)], fc=[]), val=[]), f'big{n}', path))
        for i, name in enumerate(([dict(t=1, v=[j % 256] * (j % 3)) for j in range(r.randrange(260, 700))],
                                  [dict(t=1, v=wc.rbytes(r, r.choice([40000, 60000])))], [dict(t=1, v=wc.rbytes(r, 300)) for _ in range(130)])):
            recs.append(round_trip(chk, k, dict(wc.rpacket(r, big=False), co=dict(name=[name], exp=[], pt=[0], pl=[[1]], fc=[])), f'name{i}', path))
        recs.append(round_trip(chk, k, dict(co=dict(name=[], exp=[], pt=[], pl=[], fc=[]), val=[dict(
            k='rsa', keyid=[dict(a=1, v=wc.rbytes(r, 32))], time=[wc.rtime(r)], sig=wc.rbytes(r, 40000))]), 'signature', path))
    else:
        # many of everything that can be repeated
        h = lambda: dict(a=1, v=wc.rbytes(r, 32))
        few = dict(sts=[], std=[], loc=[], ncs=[], vend=[])
        gd = dict(sts=[num(5)], std=[], ls=[], ld=[], nc=[num(1)], ssid=[num(250)])
        many = lambda f, n=300: [f() for _ in range(n + r.randrange(n // 4))]
        for i, (nd, hgs) in enumerate((
                ([], [dict(gd=[gd], ptrs=many(h, 1200))]),
                ([], [dict(gd=[dict(gd, ssid=[num(65500)])], ptrs=many(h)), dict(gd=[gd], ptrs=many(h, 260))]),
                ([dict(few, sts=[num(7)])], [dict(gd=[dict(gd, nc=[num(j)])], ptrs=[h()]) for j in range(r.randrange(260, 500))]),
                ([dict(few, ncs=[dict(id=num(j), s=wc.rschema(r)) for j in range(100)])], []),
                ([dict(few, vend=many(lambda: dict(pen=wc.rbytes(r, 3), pl=wc.rbytes(r, 5))))], []),
                ([dict(few, loc=[many(lambda: wc.rlink(r, True), 60)])], []))):
            a = dict(ctx=[], node=[dict(nd=nd, hgs=hgs or [dict(gd=[gd], ptrs=[h()])], pad=[])], enc=[], tag=[])
            recs.append(round_trip(chk, k, a, f'many{i}', path))
    chk.judge('WireCheck', recs, describe=lambda r: r['id'] + ' ' + json.dumps(r['abs'])[:300])


def P09(chk):
    chk.exhaustive = ['all presence combinations of the content-object fields with boundary values, times validation kinds']
    wire_rt(chk, 'packet', chk.pick(1500, 20000))


def P10(chk):
    chk.exhaustive = ['all presence combinations of NodeData, GroupData, schema, security-context fields with boundary values']
    wire_rt(chk, 'manifest', chk.pick(1500, 15000))


def parse_rec(k, b, i, kind):
    r = dict(t='mut', id=f'{i}:{kind}', k=k, bytes=b, ok=False, projected=False, abs2=0)
    ok, o = attempt(PARSE[k], b, seconds=5)
    if ok:
        r['ok'] = True
        ok, a = attempt(PROJECT[k], o)
        if ok:
            r.update(projected=True, abs2=a)
    return r


def pm_rec(b, i, kind):
    r = dict(t='pm', id=f'{i}:{kind}', k='packet', bytes=b, ok=False, projected=False, abs2=0)
    ok, o = attempt(lambda: Manifest.from_content_object(Packet.deserialize(arr(b)).body()), seconds=5)
    if ok:
        r['ok'] = True
        ok, a = attempt(p_manifest, o)
        if ok:
            r.update(projected=True, abs2=a)
    return r


def small_manifest(r):
    """manifests of every kind, but short (all their mutants are explored)"""
    h = lambda: dict(a=1, v=wc.rbytes(r, r.choice([4, 32])))
    if r.random() < 0.35:
        c = wc.rctx(r)
        c['nonce'] = wc.rbytes(r, 4)
        if c['wrap']:
            c['wrap'] = [dict(keyid=h(), link=wc.ropt(r, lambda: dict(name=[[dict(t=1, v=[97])]], keyid=[], digest=wc.ropt(r, h))),
                              alg=num(1), wk=wc.rbytes(r, 5))]
        if c['kdf']:
            c['kdf'] = [dict(alg=num(1), info=wc.ropt(r, lambda: wc.rbytes(r, 3)))]
        return dict(ctx=[c], node=[], enc=[wc.rbytes(r, 6)], tag=[wc.rbytes(r, 4)])
    link = lambda: dict(name=[[dict(t=1, v=[97])]], keyid=wc.ropt(r, h, 0.3), digest=wc.ropt(r, h, 0.3))
    sch = lambda: r.choice([dict(k='hash', name=[], sfx=[], loc=wc.ropt(r, lambda: [link()], 0.7), flags=wc.ropt(r, lambda: [1])),
                            dict(k='prefix', name=[[dict(t=1, v=[98])]], sfx=[], loc=[], flags=[]),
                            dict(k='seg', name=[[dict(t=1, v=[98])]], sfx=[[5]], loc=wc.ropt(r, lambda: [link()], 0.3), flags=[])])
    nd = dict(sts=wc.ropt(r, lambda: num(300)), std=wc.ropt(r, h, 0.2), loc=wc.ropt(r, lambda: [link()], 0.3),
              ncs=[dict(id=num(i), s=sch()) for i in range(r.choice([0, 1, 2]))],
              vend=[dict(pen=[0, 0, 1], pl=wc.rbytes(r, 2)) for _ in range(r.choice([0, 1]))])
    gd = dict(sts=wc.ropt(r, lambda: num(5)), std=[], ls=wc.ropt(r, lambda: num(77)), ld=wc.ropt(r, h, 0.2), nc=[num(1)], ssid=wc.ropt(r, lambda: num(0)))
    return dict(ctx=[], node=[dict(nd=wc.ropt(r, lambda: nd, 0.7),
                                   hgs=[dict(gd=wc.ropt(r, lambda: gd, 0.8), ptrs=[h() for _ in range(r.choice([0, 1, 2]))]) for _ in range(r.choice([1, 2]))],
                                   pad=wc.ropt(r, lambda: 2, 0.2))], enc=[], tag=[])


def P11(chk):
    r = chk.rng
    h32 = lambda: dict(a=1, v=wc.rbytes(r, 32))
    recs = []
    n = chk.pick(14, 60)
    for i in range(n):
        a = wc.rpacket(r, big=False)
        if i % 2 == 0:       # every second one has everything
            a = dict(co=dict(name=[[dict(t=1, v=[97]), dict(t=5, v=[1])]], exp=[wc.rtime(r)], pt=[r.randrange(4)], pl=[wc.rbytes(r, 6)], fc=[num(3)]),
                     val=[r.choice([dict(k='crc', keyid=[], time=[], sig=[1, 2, 3, 4]), dict(k='rsa', keyid=[h32()], time=[wc.rtime(r)], sig=[5] * 8)])])
        ok, b = attempt(lambda: by(b_packet(a).serialize()))
        if not ok:
            continue
        for kind, m in wc.mutants(b, True, r, chk.pick(80, 400)):
            recs.append(parse_rec('packet', m, f'packet{i}', kind))
        recs.append(parse_rec('packet', b, f'packet{i}', 'unchanged'))
    for i in range(chk.pick(16, 80)):
        a = small_manifest(r)
        ok, b = attempt(lambda: by(b_manifest(a).serialize()))
        if not ok:
            continue
        for kind, m in wc.mutants(b, False, r, chk.pick(60, 400)):
            recs.append(parse_rec('manifest', m, f'manifest{i}', kind))
        recs.append(parse_rec('manifest', b, f'manifest{i}', 'unchanged'))
    for i in range(chk.pick(4, 20)):
        a = small_manifest(r)
        ok, b = attempt(lambda: by(b_packet(dict(co=dict(name=[], exp=[], pt=[3], pl=[by(b_manifest(a).serialize())], fc=[]), val=[])).serialize()))
        if not ok:
            continue
        for kind, m in wc.mutants(b, True, r, chk.pick(40, 300)):
            recs.append(pm_rec(m, f'pm{i}', kind))
        recs.append(pm_rec(b, f'pm{i}', 'unchanged'))
    # unstructured: random bytes, and short TLV soups
    for i in range(chk.pick(400, 5000)):
        m = wc.rbytes(r, r.randrange(40))
        recs.append(parse_rec(r.choice(['packet', 'manifest']), m, f'random{i}', 'random'))
        m = []
        for _ in range(r.randrange(4)):
            v = wc.rbytes(r, r.randrange(6))
            m += [0, r.randrange(8), 0, len(v)] + v
        recs.append(parse_rec('manifest', m, f'soup{i}', 'soup'))
        recs.append(parse_rec('packet', [1, 1, 0, 8 + len(m), 0, 0, 0, 8] + m, f'soup{i}', 'soup'))
    for x in recs:
        chk.count('mutants_' + x['id'].split(':')[1])
    chk.judge('WireCheck', recs, describe=lambda x: f"{x['id']} accepted={x['ok']} bytes={bytes(x['bytes']).hex()[:200]}")


def hash_rec(a, i, path):
    p = b_packet(a)
    b = by(p.serialize())
    q = Packet.deserialize(arr(b))
    p.save(path)
    l = Packet.load(path)
    ohs = [p.content_object_hash(), q.content_object_hash(), l.content_object_hash(), p.content_object_hash(),
           Packet.deserialize(q.serialize()).content_object_hash()]
    return dict(t='hash', id=str(i), abs=a, bytes=b, ohs=[p_hash(h) for h in ohs])


def vary(r, a):
    """abstract packets that differ from a in one field (plus a itself twice)"""
    import copy
    res = [a, copy.deepcopy(a)]

    def v(f):
        x = copy.deepcopy(a)
        f(x)
        res.append(x)
    flip = lambda l: l.__setitem__(r.randrange(len(l)), (l[-1] + 1) % 256) if l else l.append(1)

    def flip1(l):
        j = r.randrange(len(l)); l[j] = (l[j] + 1 + r.randrange(255)) % 256
    co = a['co']
    for f in ('name', 'exp', 'pt', 'pl', 'fc'):
        if co[f]:
            v(lambda x, f=f: x['co'].__setitem__(f, []))
    if co['pl'] and co['pl'][0]:
        v(lambda x: flip1(x['co']['pl'][0]))
        v(lambda x: x['co']['pl'][0].append(0))
    if co['name']:
        v(lambda x: x['co']['name'][0].append(dict(t=1, v=[1])))
        if co['name'][0]:
            v(lambda x: x['co']['name'][0][-1].__setitem__('t', x['co']['name'][0][-1]['t'] ^ 3))
            v(lambda x: x['co']['name'][0][0]['v'].append(0))
    if co['exp']:
        v(lambda x: x['co'].__setitem__('exp', [num(denum(x['co']['exp'][0]) + 1)]))
    if co['pt']:
        v(lambda x: x['co'].__setitem__('pt', [(x['co']['pt'][0] + 1) % 4]))
    if co['fc']:
        v(lambda x: x['co'].__setitem__('fc', [num(denum(x['co']['fc'][0]) ^ 1)]))
    if a['val']:
        v(lambda x: x.__setitem__('val', []))
        v(lambda x: x['val'][0]['sig'].append(1))
        if a['val'][0]['sig']:
            v(lambda x: flip1(x['val'][0]['sig']))
        if a['val'][0]['k'] == 'rsa':
            v(lambda x: x['val'][0].__setitem__('time', [num(denum(x['val'][0]['time'][0]) + 1)]))
            v(lambda x: x['val'][0]['keyid'][0]['v'].append(1))
    else:
        v(lambda x: x.__setitem__('val', [dict(k='crc', keyid=[], time=[], sig=[0, 0, 0, 0])]))
    return res


def P12(chk):
    r = chk.rng
    path = os.path.join(chk.dir, 'x.bin')
    gen = chk.generate('WireGen', env=dict(WHICH='packet'))
    step = chk.pick(12, 2)
    cases = [g['abs'] for g in gen[r.randrange(step)::step]]
    cases += [wc.rpacket(r) for _ in range(chk.pick(150, 1500))]
    recs = [hash_rec(a, i, path) for i, a in enumerate(cases)]
    for n in range(40, 140):      # every padding case of the hash
        recs.append(hash_rec(dict(co=dict(name=[], exp=[], pt=[], pl=[wc.rbytes(r, n)], fc=[]), val=[]), f'len{n}', path))
    for i in range(chk.pick(150, 1500)):
        ms = vary(r, wc.rpacket(r, big=False))
        recs.append(dict(t='family', id=f'family{i}',
                         members=[dict(abs=m, oh=p_hash(b_packet(m).content_object_hash())) for m in ms]))
    # swapping bytes between neighbouring fields
    chk.judge('WireCheck', recs, describe=lambda x: x['t'] + ' ' + x['id'])
