"""P01-P07, P24: publications and traversals (spec/FlicTree.tla, FlicCheck.tla)."""
import builtins
from publish import *
from ccnpy.flic.tree.ManifestGraph import ManifestGraph
import checks_walk


def cases(chk, n, chunks=None, big=2):
    """(id, configuration, file): seeded random, aimed at small trees of several levels, and a few large ones"""
    r = chk.rng
    for i in range(n):
        c = rconfig(r, schema=('hash', 'prefix', 'seg')[i % 3])
        k = r.choice(chunks or [1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 17, 20, 21, 22, 27, 31, 40])
        yield f'r{i}', c, rfile(r, c, k)
    for i in range(big):
        # many chunks (two-byte numbers), and files longer than 65536 bytes (three-byte sizes)
        c = rconfig(r, schema=('seg', 'hash', 'prefix')[i % 3], enc=[] if i % 2 else None)
        if i % 2:
            c['maxp'] = 1500
            yield f'big{i}', c, list(r.randbytes(65536 + r.randrange(4000)))
        else:
            c['deg'] = r.choice([0, 5, 7])
            yield f'big{i}', c, rfile(r, c, r.choice([257, 300]))
    # data objects whose numbers pass from two to three bytes
    for i in range(1 if big else 0):
        c = rconfig(r, schema='seg')
        c.update(first=65536 - r.randrange(6), meta=r.random() < 0.3)
        yield f'far{i}', c, rfile(r, c, 9)
    # subtrees longer than 65536 bytes below the top, on every side
    for i in range(big and max(1, big // 2)):
        c = rconfig(r, schema=('prefix', 'seg', 'hash')[i % 3], enc=[] if i % 2 else None)
        c.update(maxp=1500, deg=r.choice([2, 3, 3, 4]), ann=dict(ns=True, gs=r.random() < 0.7, gl=r.random() < 0.7))
        yield f'deep{i}', c, list(r.randbytes(r.randrange(150000, 260000)))


def record(c, data, outs=()):
    rec = Recorder(outs)
    ok, root = attempt(publish, c, data, rec, seconds=120)
    return rec, ok, root


def tree_records(chk, n, big=2, chunks=None):
    recs = []
    for i, c, data in cases(chk, n, chunks, big):
        rec, ok, _ = record(c, data)
        chk.count('published' if ok else 'refused')
        chk.count('objects', len(rec.events))
        recs.append(dict(id=i, c=c, file=list(data), ok=ok, ev=events(c, rec)))
    return recs


def describe(r):
    return f"{r['id']} {cid(r['c'])} file={len(r['file'])} bytes"


def trees(chk, quick, thorough, big=2):
    chk.judge('FlicCheck', tree_records(chk, chk.pick(quick, thorough), chk.pick(big, 12)), describe=describe)


def P02(chk):
    chk.model('FlicPublish', chk.pick('FlicPublish.cfg', 'FlicPublishBig.cfg'), deadlock=True)
    trees(chk, 400, 3000)


def accepted(c, data):
    return record(c, data)[1]


def P03(chk):
    r = chk.rng
    recs = tree_records(chk, chk.pick(200, 1500), chk.pick(2, 12))

    def add(i, c, data):
        rec, ok, _ = record(c, data)
        chk.count('published' if ok else 'refused')
        chk.count('objects', len(rec.events))
        recs.append(dict(id=i, c=c, file=list(data), ok=ok, ev=events(c, rec)))
    # around the smallest accepted packet size: every size from 3 below to 40 above it
    # (two-pointer steps of the manifests, and every slack of the last pointer)
    for n in range(chk.pick(7, 60)):
        c = rconfig(r, schema=('hash', 'prefix', 'seg')[n % 3])
        c['deg'] = r.choice([0, 0, 0, 4])
        lo, hi = 60, 1400
        data = list(r.randbytes(1500))
        while hi - lo > 1:
            m = (lo + hi) // 2
            c['maxp'] = m
            lo, hi = (lo, m) if accepted(c, data) else (m, hi)
        for m in range(hi - 3, hi + 41):
            d = dict(c, maxp=m)
            add(f'edge{n}-{m - hi}', d, list(r.randbytes(min(payload_room(d) * r.choice([7, 12, 15]), 6000))))
    # three-byte sizes and two-byte chunk numbers in full manifests: the sizes at which the largest manifest fits exactly
    for n in range(chk.pick(24, 160)):
        c = rconfig(r, schema=('seg', 'hash', 'prefix', 'hash', 'prefix')[n % 5], enc=[] if r.random() < 0.6 else None)
        c.update(deg=0, ann=dict(ns=n % 7 < 5, gs=n % 3 > 0 or n % 7 < 4, gl=n % 4 > 0 or n % 7 < 4))
        # (in large packets the direct pointers of one manifest alone exceed two-byte sizes)
        wide = n % 6 > 0
        base = r.randrange(1800, 2600) if wide else max(c['maxp'], 480)

        def tight(m, data):
            d = dict(c, maxp=m)
            rec, ok, _ = record(d, data)
            chk.count('published' if ok else 'refused')
            chk.count('objects', len(rec.events))
            return m - max((len(b) for b in rec.events[:-1] if manifest_of(b) is not None), default=0), m, rec, ok
        for _ in range(6):
            data = list(r.randbytes(r.randrange(150000, 400000) if wide else 66000 + r.randrange(20000)))
            slack, m, rec, ok = tight(base, data)
            if slack < 36:
                break
        found = sorted((tight(k, data) for k in range(m - slack - 3, m - slack + 1)), key=lambda x: x[:2])
        for slack, m, rec, ok in found[:1] if slack < 36 else []:
            d = dict(c, maxp=m)
            chk.count('tight', slack == 0)
            recs.append(dict(id=f'long{n}-{m}', c=d, file=data, ok=ok, ev=events(d, rec)))
    chk.judge('FlicCheck', recs, describe=describe)


def P04(chk):
    trees(chk, 400, 3000)


def P05(chk):
    trees(chk, 400, 3000)


def P06(chk):
    trees(chk, 400, 3000)


# ---- P01 -------------------------------------------------------------------
def retrievals(chk, c, data, big=False):
    """publishes to memory and to a directory, and retrieves in every way"""
    r = chk.rng
    d = tempfile.mkdtemp(dir=chk.dir)
    try:
        links = c['sign'] != 'none' and r.random() < 0.7
        mem = TreeIO.PacketMemoryWriter()
        dirw = TreeIO.PacketDirectoryWriter(d, link_named_objects=links,
                                            signer=RsaSha256Signer(rsakey('signer.pem')) if r.random() < 0.1 else None)
        rec, ok, root = record(c, data, (mem, dirw))
        if not ok:
            return False, [], len(rec.events), root
        name, h = b_name(c['name']), HashValue.create_sha256(list(phash(rec.events[-1])))
        ways = [('memory', mem, h), ('directory', TreeIO.PacketDirectoryReader(d), h),
                ('parsed', TreeIO.PacketMemoryReader([Packet.deserialize(arr(b)) for b in rec.events]), h)]
        if links:
            ways.append(('name', TreeIO.PacketDirectoryReader(d), None))
        rets = []
        for how, reader, restriction in ways:
            ok, e, sink, _ = retrieve(reader, name, restriction, reader_keystore(c))
            rets.append(dict(how=how, ok=ok, out=list(sink.bytes()), err='' if ok else f'{ename(e)}: {e}'[:200]))
        return True, rets, len(rec.events), None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def P01(chk):
    r = chk.rng
    recs = []

    def one(i, c, data):
        ok, rets, n, err = retrievals(chk, c, data)
        chk.count('published' if ok else 'refused')
        chk.count('objects', n)
        chk.count('retrievals', len(rets))
        recs.append(dict(id=i, c=c, file=list(data), ok=ok, rets=rets, err='' if ok else f'{ename(err)}: {err}'[:200]))
    for i, c, data in cases(chk, chk.pick(240, 3000), big=chk.pick(3, 16)):
        c['patchy'] = len(data) < 9000 and r.random() < 0.2
        one(i, c, data)
    # every combination of schema, signature, encryption and retrieval, on small trees
    encs = [[]] + [renc(r, 1) for _ in range(chk.pick(4, 12))]
    for schema in ('hash', 'prefix', 'seg'):
        for e in encs:
            for sign in ('none', 'crc', 'rsa'):
                for deg in (0, 2, 3):
                    c = rconfig(r, schema=schema, enc=e, maxp=900)
                    c.update(sign=sign, deg=deg)
                    one(f'grid-{schema}-{sign}-{deg}', c, rfile(r, c, r.choice([1, 2, 5, 9])))
    c = rconfig(r, schema='hash', enc=[])
    c.update(maxp=250, deg=2, name=uri('a'), ml=[], dl=[], rexp=[], mexp=[], dexp=[])
    one('deg2-long-chain', c, rfile(r, c, 600))
    chk.judge('FlicCheck', recs, describe=lambda r: describe(r) + ' ' + r['err'] + ' '.join(f"{x['how']}: {x['err']}" for x in r['rets'] if not x['ok']))


# ---- P07 -------------------------------------------------------------------
def P07(chk):
    chk.model('FlicPublish', chk.pick('FlicPublish.cfg', 'FlicPublishBig.cfg'), deadlock=True)
    r = chk.rng
    recs = []
    for i, c, data in cases(chk, chk.pick(160, 1500), big=chk.pick(1, 6)):
        rec, ok, _ = record(c, data)
        n = len(rec.events)
        fails = []
        if ok:
            ks = range(1, n + 1) if n <= chk.pick(10, 40) else sorted({1, 2, n - 1, n} | {r.randint(1, n) for _ in range(chk.pick(4, 12))})
            for k in ks:
                w = Recorder(fail_at=k)
                ok2, e = attempt(publish, c, data, w, seconds=120)
                fails.append(dict(k=k, n=len(w.events), same=(not ok2 and e is w.error and w.calls == k), hs=[list(phash(b)) for b in w.events]))
                chk.count('interrupted')
        recs.append(dict(id=i, c=c, file=[], ok=ok, ev=events(c, rec), fails=fails))
    chk.judge('FlicCheck', recs, describe=lambda r: f"{r['id']} {cid(r['c'])} {len(r['ev'])} objects")
    crashes(chk)


class Stops:
    """Stops a publication at the k-th file it opens for writing below a directory: before the file is there (open), when it is
    empty (empty), or in the middle of what is written (cut). Without k it only counts."""

    def __init__(self, d, k=None, how='open', part=0.5):
        self.d, self.k, self.how, self.part, self.n, self.hit = os.path.realpath(d) + os.sep, k, how, part, 0, False

    def __enter__(self):
        self.real = builtins.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real

    def stop(self):
        self.hit = True
        raise WriterFailed('no space left')

    def open(self, file, mode='r', *a, **kw):
        if not any(x in mode for x in 'wax+') or isinstance(file, int) or not os.path.realpath(os.fspath(file)).startswith(self.d):
            return self.real(file, mode, *a, **kw)
        if self.hit:
            self.stop()                     # nothing more is written after the stop
        self.n += 1
        if self.n != self.k:
            return self.real(file, mode, *a, **kw)
        if self.how == 'open':
            self.stop()
        return Torn(self, self.real(file, mode, *a, **kw))


class Torn:
    def __init__(self, stops, f):
        self.stops, self.f = stops, f

    def write(self, b):
        if self.stops.how == 'cut':
            self.f.write(b[:max(1, int(len(b) * self.stops.part))] if len(b) > 1 else b[:0])
        self.f.flush()
        self.stops.stop()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, a):
        return getattr(self.f, a)


def left_over(d):
    """the whole objects and the whole links in a directory"""
    objs, links = [], []
    for path, _, names in sorted(os.walk(d)):
        for n in sorted(names):
            with open(os.path.join(path, n), 'rb') as f:
                b = f.read()
            if len(b) < 8 or int.from_bytes(b[2:4], 'big') != len(b):
                continue
            if n.endswith('.link'):
                links.append(b)
            elif n == phash(b).hex():
                objs.append(b)
    return objs, links


def crash_record(chk, i, c, data, k, how, nested, lsign, part):
    d = tempfile.mkdtemp(dir=chk.dir)
    try:
        def go():
            w = TreeIO.PacketDirectoryWriter(d, link_named_objects=True, nested=nested,
                                             signer=RsaSha256Signer(rsakey('signer.pem')) if lsign else None)
            rec = Recorder([w])
            return *attempt(publish, c, data, rec, seconds=120), rec
        with Stops(d, k, how, part) as s:
            ok, _, rec = go()
        objs, links = left_over(d)
        ok2, _, rec2 = go()
        out = dict(ok=False, out=[])
        if ok2:
            h = HashValue.create_sha256(list(phash(rec2.events[-1])))
            # there is no reader of nested directories
            reader = TreeIO.PacketMemoryReader([Packet.deserialize(arr(b)) for b in left_over(d)[0]]) if nested else TreeIO.PacketDirectoryReader(d)
            ok3, _, sink, _ = retrieve(reader, b_name(c['name']), h, reader_keystore(c))
            out = dict(ok=ok3, out=list(sink.bytes()))
        chk.count('stopped' if s.hit else 'not stopped')
        return s.n, dict(id=f'{i} stop at {k} ({how})', c=c, file=list(data), hit=s.hit, ok=ok, ev=[event(c, b) for b in objs],
                         links=[list(b) for b in links], again=out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def crashes(chk):
    chk.model('Crash')
    chk.model_breaks('Crash', 'CrashLinkFirst.cfg')
    r, recs = chk.rng, []
    for i, c, data in cases(chk, chk.pick(40, 300), chunks=[1, 2, 3, 4, 5, 7, 10], big=0):
        rec, ok, _ = record(c, data)
        if not ok or len({phash(b) for b in rec.events}) != len(rec.events):
            continue                        # an equal object is written twice: its file is torn again while others lead to it
        args = r.random() < 0.4, r.random() < 0.3, r.random()
        n, whole = crash_record(chk, i, c, data, None, 'none', *args)
        recs.append(whole)
        for k in range(1, n + 1) if n <= 12 else sorted({1, 2, n - 1, n} | {r.randint(1, n) for _ in range(8)}):
            recs.append(crash_record(chk, i, c, data, k, r.choice(['open', 'empty', 'cut', 'cut']), *args)[1])
    chk.judge('CrashCheck', recs, describe=lambda r: f"{r['id']} {cid(r['c'])} {len(r['ev'])} objects {len(r['links'])} links left")


# ---- P24 -------------------------------------------------------------------
class RecordingReader(PacketReader):
    def __init__(self, inner):
        self.inner, self.fetches = inner, []

    def get(self, name, hash_restriction, *a, **kw):
        self.fetches.append(dict(name=opt(p_name, name), h=by(hash_restriction.value())))
        return self.inner.get(name, hash_restriction, *a, **kw)


NOGRAPH = dict(nodes=[], edges=[], looks=[])


def P24(chk):
    recs = []
    path = os.path.join(chk.dir, 'g.dot')
    for i, c, data in cases(chk, chk.pick(200, 1500), big=chk.pick(1, 6)):
        rec, ok, _ = record(c, data)
        trs = []
        if ok:
            reader = TreeIO.PacketMemoryReader([Packet.deserialize(arr(b)) for b in rec.events])
            name, h = b_name(c['name']), HashValue.create_sha256(list(phash(rec.events[-1])))

            def run(t, rr, sink, graph):
                rr.fetches, sink.writes = [], []
                ok, e = attempt(t.traverse, root_name=name, hash_restriction=h, seconds=60)
                g = []
                if ok and graph:
                    ok2, _ = attempt(lambda: t.get_graph().save(path))
                    g = [read_dot(path)] if ok2 else [NOGRAPH]
                trs.append(dict(ok=ok, fetches=rr.fetches, writes=[list(w) for w in sink.writes], count=t.count(), graph=g))
                chk.count('fetches', len(rr.fetches))
            for graph in (False, True):
                rr, sink = RecordingReader(reader), Sink()
                t = Traversal(packet_input=rr, data_writer=sink, keystore=reader_keystore(c), build_graph=graph)
                run(t, rr, sink, graph)
                if not graph:
                    t.reset_count()
                    run(t, rr, sink, graph)
        # a walk that starts below the root, with the publisher's name constructors
        subs = []
        if ok and len(rec.events) < 200:
            keep, rec3 = [], Recorder()
            if attempt(publish, c, data, rec3, keep=keep, seconds=120)[0]:
                reader = TreeIO.PacketMemoryReader([Packet.deserialize(arr(b)) for b in rec3.events])
                ks = reader_keystore(c)          # a walk from the root finds the key for the manifests below it
                attempt(Traversal(packet_input=reader, data_writer=Sink(), keystore=ks).traverse, root_name=b_name(c['name']), seconds=60,
                        hash_restriction=HashValue.create_sha256(list(phash(rec3.events[-1]))))
                for k in sorted(chk.rng.sample(range(len(rec3.events) - 1), min(4, len(rec3.events) - 1)) + [len(rec3.events) - 2]):
                    rr, sink = RecordingReader(reader), Sink()
                    t = Traversal(packet_input=rr, data_writer=sink, keystore=ks)
                    rr.fetches = []
                    ok3, _ = attempt(lambda: t.preorder(Packet.deserialize(arr(rec3.events[k])),
                                                        Traversal.NameConstructorCache(copy=keep[0].export_schemas())), seconds=60)
                    subs.append(dict(i=k + 1, ok=ok3, fetches=rr.fetches, writes=[list(w) for w in sink.writes], count=t.count()))
                    chk.count('walks from below')
            recs.append(dict(id=i + ' below', c=c, ok=True, ev=events(c, rec3), trs=[], bg=[], subs=subs))
        # the publisher fills in a graph of another publication of the same file
        rec2, mg = Recorder(), ManifestGraph()
        ok2 = attempt(publish, c, data, rec2, mg, seconds=120)[0] and attempt(mg.save, path)[0]
        if ok and len(rec.events) < 200:
            recs.append(dict(id=i + ' graph', c=c, ok=True, ev=events(c, rec2), trs=[], subs=[], bg=[read_dot(path)] if ok2 else [NOGRAPH]))
        recs.append(dict(id=i, c=c, ok=ok, ev=events(c, rec), trs=trs, subs=[], bg=[]))
    chk.judge('FlicCheck', recs, describe=lambda r: f"{r['id']} {cid(r['c'])} {len(r['ev'])} objects")
    # trees that the publisher does not make: shared and repeated subtrees, empty objects, any groups
    r = chk.rng
    chk.model('NcScope')
    recs = []
    for j in range(chk.pick(400, 5000)):
        T, root = checks_walk.rtree(r, False, empty=0.15)
        p = r.choice([0, 0, 0.5, 1])
        recs.append(checks_walk.walk(chk, T, root, f'tree {j}', uri('r'), encrypt=lambda k: r.random() < p, graph=True, runs=2))
        chk.count('fetches', len(recs[-1]['fetched']))
    for j in range(chk.pick(1, 6)):
        T, root = checks_walk.wide_tree(r)
        recs.append(checks_walk.walk(chk, T, root, f'wide {j}', uri('r'), graph=True, runs=2))
        chk.count('fetches', len(recs[-1]['fetched']))
    chk.judge('NcScopeCheck', recs, describe=lambda r: f"{r['id']} {r['err']}: fetched {len(r['fetched'])} counts {r['counts']}")


# ---- P08 -------------------------------------------------------------------
class FetchFailed(OSError):
    pass


class FailingReader(PacketReader):
    def __init__(self, inner, at):
        self.inner, self.at, self.n, self.error = inner, at, 0, None

    def get(self, name, hash_restriction, *a, **kw):
        self.n += 1
        if self.n == self.at:
            self.error = FetchFailed('connection reset')
            raise self.error
        return self.inner.get(name, hash_restriction, *a, **kw)


def unsigned_namesake(b, name):
    """the signature is what distinguishes a root found by name: an unsigned packet of that name would do as well"""
    p = Packet.deserialize(arr(b))
    return p.validation_alg() is None and opt(p_name, p.body().name()) == [name]


def tamper(r, d, pristine, files, links, foreign, rootfile):
    """changes one file of the directory d; returns what was done"""
    path = lambda f: os.path.join(d, f)

    def read(f):
        with open(path(f), 'rb') as x:
            return x.read()

    def write(f, b):
        with open(path(f), 'wb') as x:
            x.write(b)
    f = r.choice(files + [rootfile] * 2 + list(links))
    if not os.path.exists(path(f)):
        return 'gone'
    b = read(f)
    if f in links and r.random() < 0.5:
        # a link of the same name that leads elsewhere (its signature is not checked, the packet it leads to is)
        what, g = r.choice(['object', 'foreign', 'nothing', 'notlink', 'renamed']), None
        if what in ('object', 'foreign', 'notlink'):
            offer = [x for x in (foreign if what == 'foreign' else pristine.values()) if not unsigned_namesake(x, links[f])]
            g = r.choice(offer or [pristine[rootfile]])
            write(phash(g).hex(), g)
        digest = phash(g) if g else r.randbytes(32)
        name = b_name(links[f] if what != 'renamed' else uri('other'))
        link = ContentObject.create_link(name=name, link=Link(name=name, digest=HashValue.create_sha256(list(digest))))
        write(f, g if what == 'notlink' else bytes(Packet.create_content_object(link).serialize()))
        return f'link to {what}'
    k = r.choice(['delete', 'truncate', 'grow', 'flip', 'flip', 'flip', 'swap', 'other', 'foreign', 'foreign', 'empty', 'trim'])
    if k == 'delete':
        os.unlink(path(f))
    elif k == 'truncate':
        write(f, b[:r.randrange(len(b))] if b else b)
    elif k == 'empty':
        write(f, b'')
    elif k == 'grow':
        write(f, b + r.randbytes(r.choice([1, 4, 100])))
    elif k == 'flip':
        if b:
            i = r.choice([r.randrange(len(b)), r.randrange(len(b)), r.randrange(min(8, len(b)))])
            write(f, b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:])
    elif k == 'trim':
        # a shorter, well-formed packet: the last element is cut and the lengths are adapted
        if len(b) > 40:
            n = r.choice([1, 2, 20])
            t = bytearray(b[:-n])
            t[2:4] = len(t).to_bytes(2, 'big')
            write(f, bytes(t))
    elif k == 'swap':
        g = r.choice(files)
        if os.path.exists(path(g)):
            c = read(g)
            write(g, b)
            write(f, c)
    elif k == 'other':
        g = r.choice(files)
        if os.path.exists(path(g)):
            write(f, read(g))
    else:
        write(f, r.choice(foreign))
    return f'{k} {"root" if f == rootfile else "link" if f in links else "object"}'


def P08(chk):
    chk.model('FlicRetrieve', deadlock=True)
    chk.model_breaks('FlicRetrieve', 'FlicRetrieveBroken.cfg')
    chk.model_breaks('FlicRetrieve', 'FlicRetrieveUnsigned.cfg')
    r = chk.rng
    recs = []
    for i, c, data in cases(chk, chk.pick(70, 600), chunks=[1, 2, 3, 5, 7, 9, 12, 14], big=0):
        if i[-1] in '02468':
            c['sign'] = 'rsa'
        named = c['sign'] == 'rsa'
        d = tempfile.mkdtemp(dir=chk.dir)
        rec, ok, _ = record(c, data, (TreeIO.PacketDirectoryWriter(d, link_named_objects=named),))
        if not ok:
            shutil.rmtree(d)
            continue
        pristine = {}
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f), 'rb') as x:
                pristine[f] = x.read()
        links = {f: p_name(Packet.deserialize(arr(b)).body().name()) for f, b in pristine.items() if f.endswith('.link')}
        files = [f for f in pristine if f not in links]
        name, h = b_name(c['name']), HashValue.create_sha256(list(phash(rec.events[-1])))
        rootfile = next(f for f in files if pristine[f] == rec.events[-1])
        # another file under the same names, its root signed by someone else
        alt, ok, _ = record(dict(c, sign='none', enc=[]), list(r.randbytes(len(data))))
        foreign = alt.events[:-1] or [pristine[rootfile]]
        if named:
            from ccnpy.core.Packet import Packet as Pk
            s = RsaSha256Signer(rsakey('other.pem'))
            body = Pk.deserialize(arr(alt.events[-1] if ok else rec.events[-1])).body()
            alg = s.validation_alg()
            foreign.append(bytes(Pk.create_signed_content_object(body, alg, s.sign(body.serialize(), alg.serialize())).serialize()))
        faults = []

        def run(reader, restriction, what, store=None):
            ok, e, sink, _ = retrieve(reader, name, restriction, reader_keystore(c))
            same = True
            if store is not None and store.error is not None:
                same = not ok and e is store.error and store.n == store.at
            faults.append(dict(what=what, ok=ok, same=same, out=list(sink.bytes())))
            chk.count('retrievals')
            chk.count('completed' if ok else 'errors')
        for _ in range(chk.pick(24, 60)):
            what = ', '.join(tamper(r, d, pristine, files, links, foreign, rootfile) for _ in range(r.choice([1, 1, 1, 2, 3])))
            run(TreeIO.PacketDirectoryReader(d), h, what)
            if named and r.random() < 0.5:
                run(TreeIO.PacketDirectoryReader(d), None, 'by name: ' + what)
            for f in os.listdir(d):
                if f not in pristine:
                    os.unlink(os.path.join(d, f))
            for f, b in pristine.items():
                with open(os.path.join(d, f), 'wb') as x:
                    x.write(b)
        n = len(rec.events)
        for k in (range(1, n + 1) if n < 12 else sorted(r.sample(range(1, n + 1), 10))):
            s = FailingReader(TreeIO.PacketDirectoryReader(d), k)
            run(s, h, f'fetch {k} fails', s)
        shutil.rmtree(d)
        recs.append(dict(id=i, c=c, file=list(data), ok=True, ev=events(c, rec), faults=faults))
    chk.judge('FlicCheck', recs, describe=lambda r: describe(r) + ' ' + '; '.join(
        x['what'] for x in r['faults'] if x['out'] != r['file'][:len(x['out'])] or (x['ok'] and x['out'] != r['file']) or not x['same'])[:200])


# ---- P17 -------------------------------------------------------------------
def P17(chk):
    from ccnpy.flic.ManifestFactory import ManifestFactory
    from ccnpy.flic.name_constructor.FileMetadata import ChunkMetadata, FileMetadata
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    from ccnpy.flic.tree.TreeBuilder import TreeBuilder
    from ccnpy.flic.tree.TreeOptimizer import TreeOptimizer
    from ccnpy.flic.tree.TreeParameters import TreeParameters
    r = chk.rng
    chk.model('FlicPublish', chk.pick('FlicPublish.cfg', 'FlicPublishBig.cfg'), deadlock=True)
    pmax, nmax = chk.pick(12, 45), chk.pick(300, 1500)
    chk.exhaustive = [f'plans: all P in 2..{pmax}, n in 1..{nmax}', f'trees: all P in 2..6, n in 1..{chk.pick(60, 250)}']
    recs = []

    def plan(n, P):
        s = TreeOptimizer(num_direct_nodes=n, num_pointers=P).minimize_k_min_waste()
        return dict(t='plan', id=f'plan n={n} P={P}', n=n, P=P, d=s.direct_per_node(), m=s.indirect_per_node(), k=s.num_internal_nodes(),
                    leaf=s.num_leaf_nodes(), total=s.total_nodes(), waste=s.waste(), h=s.tree_height(),
                    np=s.num_pointers(), nd=s.num_data_objects())

    def lists(n, P):
        o = TreeOptimizer(num_direct_nodes=n, num_pointers=P)
        row = lambda l: [dict(d=s.direct_per_node(), m=s.indirect_per_node(), k=s.num_internal_nodes(), waste=s.waste()) for s in l]
        s = o.minimize_waste_min_height()
        return dict(t='lists', id=f'lists n={n} P={P}', n=n, P=P, fewest=row(o.minimize_k()), least=row(o.minimize_waste()), d=s.direct_per_node(),
                    m=s.indirect_per_node(), k=s.num_internal_nodes(), leaf=s.num_leaf_nodes(), total=s.total_nodes(), waste=s.waste(), h=s.tree_height())

    def guard(f, what, *a):
        ok, v = attempt(f, *a)
        if ok:
            recs.append(v)
        else:
            chk.violation('raised', str(v), f'{what}: {ename(v)} {v}')
    for P in range(2, pmax + 1):
        for n in range(1, nmax + 1):
            guard(plan, f'plan n={n} P={P}', n, P)
            if n <= nmax // 2 or n % 7 == 0:
                guard(lists, f'lists n={n} P={P}', n, P)
    for _ in range(chk.pick(1500, 20000)):
        P = r.choice([r.randint(2, 60), r.randint(2, 60), r.randint(2, 300)])
        n = r.choice([r.randint(1, 5000), r.randint(1, 3000000), P + r.choice([-1, 0, 1]), P * P + r.choice([-1, 0, 1])])
        n = max(1, min(n, 3000000))
        guard(plan, f'plan n={n} P={P}', n, P)
        if P < 80 and r.random() < 0.3:
            guard(lists, f'lists n={n} P={P}', n, P)

    def tree(n, P, c):
        SchemaImplFactory.reset_nc_id()
        o = options(c)
        ctx = NameConstructorContext.create(o)
        meta = FileMetadata([ChunkMetadata(x, 1, HashValue.create_sha256([0, 0] + list(x.to_bytes(4, 'big')) + [7] * 26)) for x in range(n)], n)
        fac = ManifestFactory(tree_options=o)
        p = TreeParameters.create_optimized_tree(meta, fac, ctx)
        w = Recorder()
        TreeBuilder(file_metadata=meta, tree_parameters=p, manifest_factory=fac, packet_output=w, tree_options=o, name_ctx=ctx).build()
        return dict(t='tree', id=f'tree n={n} P={P} {c["schema"]}', n=n, P=p.num_pointers_per_node(), d=p.internal_direct_per_node(),
                    m=p.internal_indirect_per_node(), h=p.tree_height(), ev=events(c, w))
    base = dict(name=uri('r'), ml=[], dl=[], rexp=[], mexp=[], dexp=[], sign='none', ann=dict(ns=False, gs=False, gl=False), enc=[])
    sch = lambda s: dict(base, schema=s, mp=[uri('m')] if s != 'hash' else [], dp=[uri('d')] if s != 'hash' else [])
    for P in range(2, 7):
        for n in range(1, chk.pick(60, 250) + 1):
            guard(tree, f'tree n={n} P={P}', n, P, dict(sch(('hash', 'seg', 'prefix')[n % 3]), deg=P, maxp=700))
    for _ in range(chk.pick(40, 400)):
        c = dict(sch(r.choice(['hash', 'seg', 'prefix'])), deg=r.choice([0, 0, 7, 9, 12]), maxp=r.choice([200, 250, 300, 400, 500, 700]))
        n = r.choice([r.randint(1, 300), r.randint(300, 900)])
        guard(tree, f'tree n={n} maxp={c["maxp"]} deg={c["deg"]}', n, c['deg'], c)
    chk.count('plans', sum(x['t'] == 'plan' for x in recs))
    chk.count('trees', sum(x['t'] == 'tree' for x in recs))
    chk.judge('PlanCheck', recs, describe=lambda r: r['id'] + f" d={r['d']} m={r['m']} h={r['h']}")
