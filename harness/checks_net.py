"""P27: packets written to a network connection (spec/NetStream.tla, NetCheck.tla)."""
from publish import *
import socket, threading
from ccnpy.flic.tree import TreeIO as TREEIO

Real = socket.socket


class Receiver:
    """A peer on the loopback interface that reads as it likes until the connection ends."""

    def __init__(self, r, port=0):
        self.srv = Real(socket.AF_INET, socket.SOCK_STREAM)
        self.srv.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if r.random() < 0.5:
            self.srv.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, r.choice([1, 2304, 8192]))
        self.srv.bind(('127.0.0.1', port))
        self.srv.listen(4)
        self.srv.settimeout(30)
        self.port = self.srv.getsockname()[1]
        self.sizes = [r.choice([1, 7, 8, 100, 1400, 65536]) for _ in range(5)]
        self.wait = r.choice([0, 0.02, 0.1])
        self.slow = r.choice([0, 0, 0.0005])
        self.got, self.error = bytearray(), None
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        try:
            con, _ = self.srv.accept()
            con.settimeout(30)
            time.sleep(self.wait)
            k = 0
            while True:
                if self.slow and k < 200:
                    time.sleep(self.slow)
                # single bytes only at the start, or a long stream takes for ever
                b = con.recv(self.sizes[k % 5] if k < 300 else 65536)
                k += 1
                if not b:
                    break
                self.got += b
            con.close()
        except OSError as e:
            self.error = e
        finally:
            self.srv.close()

    def all(self):
        self.thread.join(40)
        return bytes(self.got)


class Small(Real):
    """A socket with a small send buffer, which a slow receiver leaves full."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 2304)


class Patchy(Small):
    """A socket whose send takes only a part of the bytes, as a socket may."""
    rng = None
    takes = 0

    def send(self, data, *a):
        b = memoryview(bytes(data))
        n = len(b) if len(b) < 2 or self.rng.random() < 0.2 else self.rng.randint(1, len(b) - 1)
        Patchy.takes += 1
        return super().send(b[:n], *a)


class Shim:
    """Notes whether the writer itself failed (and not the publication)."""

    def __init__(self, w):
        self.w, self.failed = w, False

    def put(self, packet):
        try:
            self.w.put(packet)
        except BaseException:
            self.failed = True
            raise


def through(chk, r, packets, patchy, run=None):
    """opens a writer to a new receiver, hands over the packets; (all puts returned, bytes received)"""
    rec = Receiver(r)
    old, ok = socket.socket, True
    if patchy:
        Patchy.rng = r
        socket.socket = Patchy if patchy == 1 else Small
    try:
        ok, w = attempt(TreeIO.PacketNetworkWriter, '127.0.0.1', rec.port)
        if ok:
            try:
                if run is not None:
                    ok = run(w)
                else:
                    for p in packets:
                        good, e = attempt(w.put, p, seconds=60)
                        ok = ok and good
            finally:
                closed, e = attempt(w.close)
                ok = ok and closed
    finally:
        socket.socket = old
    return ok, rec.all()


def pieces(b):
    """the received bytes, cut at the packet headers (the judge cuts for itself and compares)"""
    res = []
    while len(b) >= 8:
        n = int.from_bytes(b[2:4], 'big')
        if n < 8 or n > len(b):
            break
        res.append(b[:n])
        b = b[n:]
    return res


def parsed(ps):
    out, packets = [], []
    for p in ps:
        ok, q = attempt(Packet.deserialize, arr(p))
        out.append(dict(ok=ok, b=list(q.serialize()) if ok else []))
        packets.append(q if ok else None)
    return out, packets


def P27(chk):
    chk.model('NetStream', deadlock=True)
    chk.model_breaks('NetStream', 'NetStreamShort.cfg')
    r = chk.rng
    recs = []
    sg = RsaSha256Signer(rsakey('signer.pem'))

    def packet():
        n = r.choice([0, 1, 2, 100, 247, 248, 1400, 1400, r.randrange(4000)])
        if r.random() < 0.03:
            n = r.choice([65535 - 8 - 4 - 9 - 4, 40000])
        name = None if r.random() < 0.4 else rsegs(r, 0, 3, binary=0.2)
        if n > 30000:
            name = None
        c = dict(name=[] if name is None else [name], exp=[rms(r)] if n < 30000 and r.random() < 0.3 else [],
                 pt=[r.choice([0, 3])], pl=[list(r.randbytes(n))] if n or r.random() < 0.5 else [], fc=[])
        co = b_co(c)
        if n < 30000 and r.random() < 0.3:
            s = r.choice([Crc32cSigner(), sg])
            a = s.validation_alg()
            return Packet.create_signed_content_object(co, a, s.sign(co.serialize(), a.serialize()))
        return Packet.create_content_object(co)

    def add(i, sent, ok, got, pub):
        again, _ = parsed(pieces(got))
        chk.count('packets', len(sent))
        chk.count('bytes', len(got))
        recs.append(dict(id=i, sent=[list(b) for b in sent], got=list(got), ok=ok, parsed=again, pub=pub))

    for j in range(chk.pick(60, 600)):
        ps = [packet() for _ in range(r.choice([1, 2, 5, 12]))]
        if r.random() < 0.4:
            ps.insert(r.randrange(len(ps) + 1), r.choice(ps))     # the same packet twice
        if r.random() < 0.2:
            ps.append(ps[-1])
        sent = [bytes(p.serialize()) for p in ps]
        ok, got = through(chk, r, ps, patchy=j % 3)
        add(f'packets {j} {[len(b) for b in sent]}', sent, ok, got, [])
    for j in range(chk.pick(30, 300)):
        c = rconfig(r, schema=('hash', 'prefix', 'seg')[j % 3])
        data = rfile(r, c, r.choice([1, 2, 5, 9, 20]))
        rec = published = None

        def run(w):
            nonlocal rec, published
            shim = Shim(w)
            rec, published, _ = record(c, data, (shim,))
            return not shim.failed
        ok, got = through(chk, r, None, patchy=(j // 3) % 3, run=run)
        if not published:
            chk.count('refused')
        again, qs = parsed(pieces(got))
        pub = []
        if ok and published and all(q is not None for q in qs) and qs:
            reader = TreeIO.PacketMemoryReader(qs)
            h = HashValue.create_sha256(list(phash(pieces(got)[-1])))
            good, e, sink, _ = retrieve(reader, b_name(c['name']), h, reader_keystore(c))
            pub = [dict(file=list(data), ok=good, out=list(sink.bytes()))]
        add(f'publication {j} {cid(c)}', rec.events, ok, got, pub)
    # several connections at a time: the streams do not mix
    for j in range(chk.pick(6, 60)):
        rx = [Receiver(r) for _ in range(3)]
        oks, ws = zip(*(attempt(TreeIO.PacketNetworkWriter, '127.0.0.1', x.port) for x in rx))
        sent = [[], [], []]
        good = list(oks)
        for _ in range(20):
            k, p = r.randrange(3), packet()
            if good[k]:
                ok, e = attempt(ws[k].put, p)
                good[k] = good[k] and ok
                sent[k].append(bytes(p.serialize()))
        for w, ok in zip(ws, oks):
            if ok:
                attempt(w.close)
        for k in range(3):
            add(f'parallel {j}.{k}', sent[k], good[k], rx[k].all(), [])
    chk.count('short writes', Patchy.takes)
    chk.judge('NetCheck', recs, describe=lambda r: r['id'][:200])


def record(c, data, outs=()):
    rec = Recorder(outs)
    ok, root = attempt(publish, c, data, rec, seconds=120)
    return rec, ok, root
