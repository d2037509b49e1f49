"""P23: the command-line tools (spec/Cli.tla, CliGen.tla, CliCheck.tla)."""
from publish import *
import datetime, importlib, logging, socket
from unittest import mock
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import padding
from checks_net import Receiver

PY = sys.executable
PASS = 'secret'
KDFS = {1: 'hkdf-sha256', 2: 'hkdf-sha384', 3: 'hkdf-sha512'}
OPEN = dict(wrap=128, wrap2=128, wrap2048=256)


def key(f):
    return os.path.join(KEYDIR, f)


def tool(module, argv, seconds=60):
    """runs a tool in this process, as its main program would"""
    m = importlib.import_module('ccnpy.apps.' + module)
    level = logging.getLogger().level
    try:
        with mock.patch.object(sys, 'argv', [module] + argv), mock.patch('getpass.getpass', lambda prompt='', stream=None: ''), \
                mock.patch.object(sys, 'stdin', io.StringIO('\n' * 9)):
            return attempt(m.run, seconds=seconds)
    finally:
        logging.getLogger().setLevel(level)


def process(module, argv, answers=''):
    """runs a tool as a process of its own; without a terminal, a password is asked for on standard input"""
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([PY, '-W', 'ignore', '-m', 'ccnpy.apps.' + module] + argv, input=answers.encode(), env=env, start_new_session=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    return p.returncode == 0, p.stdout[-300:]


def uri_of(n):
    return 'ccnx:' + ''.join('/' + bytes(c['v']).decode() for c in n)


def hexes(r, b):
    return r.choice(['0x', '']) + bytes(b).hex()


def number(r, v):
    return r.choice([str, hex])(denum(v))


# ---- the options -----------------------------------------------------------
def iso(r):
    """(milliseconds, an ISO time)"""
    ms = r.choice([r.randrange(1 << 41), r.randrange(1 << 41) // 1000 * 1000, 0, 1700000000123])
    zone = datetime.timezone(datetime.timedelta(minutes=r.choice([0, 0, 60, -480, 330])))
    t = datetime.datetime.fromtimestamp(ms // 1000, zone) + datetime.timedelta(milliseconds=ms % 1000)
    return ms, t.isoformat()


def concrete(r, k, wrong=None):
    """the option record o of the specification for a combination k, the writer's arguments, and what the reader needs"""
    argv, o = [], {}
    s, e = k['s'], k['e']
    o['schema'] = s['schema']
    if s['schema'] != 'Hashed' or r.random() < 0.5:
        argv += ['--schema', s['schema']]
    o['name'] = rsegs(r)
    argv += ['--name', uri_of(o['name'])]
    mp = [rsegs(r, 1, 2)] if s['mp'] else []
    dp = ([mp[0]] if s['same'] else [uri('d') + rsegs(r, 1, 2)]) if s['dp'] else []
    o['mp'], o['dp'] = mp, dp
    o['ml'] = [rsegs(r)] if s['ml'] else []
    o['dl'] = [rsegs(r)] if s['dl'] else []
    for opt_, f in (('--manifest-prefix', 'mp'), ('--data-prefix', 'dp'), ('--manifest-locator', 'ml'), ('--data-locator', 'dl')):
        if o[f]:
            argv += [opt_, uri_of(o[f][0])]
    o['deg'] = [] if r.random() < 0.5 else [r.choice([2, 3, 4, 6, 11])]
    if o['deg']:
        argv += ['-d', str(o['deg'][0])]
    # encryption
    o['key'], o['ccm'], o['kn'], o['salt'] = [], False, [], []
    if e['k']['key']:
        kb = bytearray(r.randbytes(e['k']['key'] if r.random() > 0.06 else r.choice([1, 8, 15, 17, 31, 33, 64])))
        if r.random() < 0.2:              # whose hex begins with zeros
            kb[0] = r.choice([0, 0, 1, 15])
        o['key'] = [list(kb)]
        argv += ['--enc-key', hexes(r, o['key'][0])]
        o['ccm'] = e['k']['ccm']
        if o['ccm'] or r.random() < 0.5:
            argv += ['--aes-mode', r.choice(['CCM', 'ccm'] if o['ccm'] else ['GCM', 'gcm'])]
        if e['k']['kn']:
            o['kn'] = [num(r.choice([0, 1, 22, 255, 256, 70000, r.randrange(1 << 32), r.randrange(1 << 63)]))]
            argv += ['--key-num', number(r, o['kn'][0])]
        if e['k']['salt']:
            o['salt'] = [num(r.choice([0, 1, 0x01020304, 0xffffffff, r.randrange(1 << 32)] + [1 << 32, 1 << 40] * (r.random() < 0.1)))]
            argv += ['--salt', number(r, o['salt'][0])]
    need = dict(wkey=None)
    o['wrap'] = []
    if e['wrap'] != 'none':
        w = r.choice(['wrap', 'wrap2', 'wrap2048'])
        need['wkey'] = w
        o['wrap'] = [dict(bytes=OPEN[w], keyid=p_hash(rsakey(w + '.pub').keyid()))]
        if e['wrap'] == 'password':
            o_pass = r.random() > 0.06
            need['pass'] = o_pass
            argv += ['--wrap-key', key(w + '_enc.pem'), '--wrap-pass', PASS if o_pass else 'Secret']
        else:
            argv += ['--wrap-key', key(w + r.choice(['.pub', '.pem'])), '--wrap-pass', '']
    o['kdf'], o['info'], o['uuid'] = [], [], False
    if e['d']['kdf']:
        a = r.choice(list(KDFS))
        o['kdf'] = [num(a)]
        argv += ['--kdf', KDFS[a]]
        i = e['d']['info']
        if i == 'ascii':
            t = r.choice(['a', 'some info', 'abcdef', 'zz-00'])
            o['info'] = [list(t.encode())]
            argv += ['--kdf-info', t]
        elif i == 'hex':
            o['info'] = [list(r.randbytes(r.randint(1, 20)))]
            argv += ['--kdf-info', '0x' + bytes(o['info'][0]).hex()]
        if i == 'uuid':
            o['uuid'] = True
            argv += ['--kdf-uuid']
            if r.random() < 0.3:
                argv += ['--kdf-info', 'overridden']
        if o['key'] and r.random() < 0.2:
            argv += ['--kdf-salt', '0x01020304']
    # signature
    o['sign'] = k['sign'] != 'none'
    if k['sign'] == 'plain':
        argv += ['-k', key('signer.pem'), '-p', '']
    elif k['sign'] == 'password':
        good = r.random() > 0.06
        need['pass'] = need.get('pass', True) and good
        argv += ['-k', key('signer_enc.pem'), '-p', PASS if good else PASS[:-1]]
    else:
        argv += ['-p', '']
    for f, a in (('rexp', '--root-expiry'), ('mexp', '--node-expiry'), ('dexp', '--data-expiry')):
        o[f] = []
        if r.random() < 0.25:
            ms, t = iso(r)
            o[f] = [num(ms)]
            argv += [a, t]
    o['link'] = k['link']
    o['password'] = need.get('pass', True)
    if k['link']:
        argv += ['--link']
    # the packet size, from what such a packet needs (TLC computes whether it is enough)
    base = 260 + 20 * len(o['name']) + sum(12 * len(o[f][0]) + 10 for f in ('mp', 'dp', 'ml', 'dl') if o[f])
    base += (80 if o['key'] or o['wrap'] else 0) + (40 if o['kdf'] else 0) + (60 + o['wrap'][0]['bytes'] if o['wrap'] else 0)
    o['size'] = [] if r.random() < 0.12 else [base + r.choice([-80, 0, 0, 30, 60, 100, 300])]
    if o['size']:
        argv += ['-s', str(o['size'][0])]
    room = (o['size'] or [1500])[0] - 60 - (20 if o['dexp'] else 0) - (sum(4 + len(c['v']) for c in (o['dp'] or [o['name']])[0]) + 20 if o['schema'] != 'Hashed' else 0)
    n = r.choice([1, room, room + 1, room * 3, room * 7 + 5, room * r.randint(2, 14), r.randint(1, 4000)])
    n = max(1, min(n, 9000))
    o['bad'] = 0
    if wrong:
        o['bad'] = 1
        argv, need['bad'] = bad_arguments(r, argv, wrong), wrong
    return o, argv, need, r.choice([r.randbytes(n), ''.join(r.choices('aé€𝄞\r\n\0', k=n)).encode()[:n]])


BAD = ['schema', 'mode', 'kdf', 'hex', 'degree', 'size', 'salt', 'number', 'uri', 'prefix', 'locator', 'no name', 'option', 'no key', 'bad key', 'expiry',
       'wrap key', 'input', 'directory']


def bad_arguments(r, argv, x):
    """the arguments with something that cannot be meant"""
    name = argv.index('--name')
    if x == 'uri':
        return argv[:name + 1] + [r.choice(['/a/b', 'ccn:/a', 'http://a/b', 'a'])] + argv[name + 2:]
    if x == 'no name':
        return argv[:name] + argv[name + 2:]
    if x in ('input', 'directory'):
        return argv
    return argv + {'schema': ['--schema', r.choice(['Hash', 'segmented', '', 'None'])], 'mode': ['--aes-mode', r.choice(['CBC', 'GCMM', 'AES'])],
                   'kdf': ['--kdf', r.choice(['HKDF-MD5', 'SHA256', 'HKDF-SHA256 ', '1'])], 'hex': ['--enc-key', r.choice(['0x' + 'ag' * 16, 'a' * 31, '0y' + '11' * 16])],
                   'degree': ['-d', r.choice(['x', '2.5', ''])], 'size': ['-s', r.choice(['big', '1e3', '0x500'])], 'salt': ['--salt', r.choice(['12z', '0xzz', '1.5'])],
                   'number': ['--key-num', r.choice(['zz', '1.5', ''])], 'prefix': [r.choice(['--manifest-prefix', '--data-prefix']), '/no/scheme'],
                   'locator': [r.choice(['--manifest-locator', '--data-locator']), 'no/scheme'], 'option': [r.choice(['--nosuch', '--encrypt', '-z']), '1'],
                   'no key': ['-k', key('missing.pem'), '-p', ''], 'bad key': ['-k', __file__, '-p', ''],
                   'expiry': [r.choice(['--root-expiry', '--node-expiry', '--data-expiry']), r.choice(['tomorrow', '2024-13-01T00:00:00', '12'])],
                   'wrap key': ['--wrap-key', r.choice([key('missing.pem'), __file__]), '--wrap-pass', '']}[x]


def reader_options(r, o, need, what, h):
    """the reader's option record q and its arguments"""
    q = dict(name=o['name'], hash=[list(h)] if r.random() < 0.6 or not o['link'] else [], sign='right' if o['sign'] else 'none',
             key=o['key'], ccm=o['ccm'], kn=o['kn'], salt=o['salt'], wrap='right' if o['wrap'] else 'none')
    if o['wrap'] and o['key'] and r.random() < 0.7:
        q.update(key=[], ccm=False, kn=[], salt=[])       # told by the root
    pas = PASS
    if what == 'by name':
        q['hash'] = []
    elif what == 'by hash':
        q['hash'] = [list(h)]
    elif what == 'other name':
        q.update(name=o['name'] + uri('x') if r.random() < 0.5 else rsegs(r))
    elif what == 'other hash':
        b = bytearray(h)
        b[r.randrange(32)] ^= 1 << r.randrange(8)
        q['hash'] = [list(b)]
    elif what == 'no signer':
        q['sign'] = 'none'
    elif what == 'other signer':
        q['sign'] = 'other'
    elif what == 'no key':
        q.update(key=[], ccm=False, kn=[], salt=[])
        if q['wrap'] != 'none':
            q['wrap'] = 'none'
    elif what == 'other key':
        if q['key']:
            b = bytearray(q['key'][0])
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            # with the number of the right key, or with the number such a key has by default
            q.update(key=[list(b)], kn=[kn_of(o)] if r.random() < 0.7 else q['kn'])
    elif what == 'other mode':
        q['ccm'] = not q['ccm'] if q['key'] else False
    elif what == 'other number':
        if q['key']:
            q['kn'] = [num(denum(kn_of(o)) ^ (1 << r.randrange(16)))]
    elif what == 'other salt':
        if q['key']:
            q['salt'] = r.choice([[]] * bool(q['salt']) + [[num((denum(q['salt'][0]) if q['salt'] else 0) ^ (1 << r.randrange(32)))]])
    elif what == 'other wrap':
        if o['wrap']:
            q.update(key=[], ccm=False, kn=[], salt=[], wrap='other')
    elif what == 'public wrap':
        if o['wrap']:
            q.update(key=[], ccm=False, kn=[], salt=[], wrap='pub')
    a = ['--name', uri_of(q['name'])]
    if q['hash']:
        a += ['--hash', hexes(r, q['hash'][0])]
    if q['sign'] == 'right':
        a += ['-k', key('signer.pub')] if r.random() < 0.7 else ['-k', key('signer_enc.pem'), '-p', PASS]
    elif q['sign'] == 'other':
        a += ['-k', key('other.pub')]
    if q['key']:
        a += ['--enc-key', hexes(r, q['key'][0])] + (['--aes-mode', 'CCM'] if q['ccm'] else [])
        a += (['--key-num', number(r, q['kn'][0])] if q['kn'] else []) + (['--salt', number(r, q['salt'][0])] if q['salt'] else [])
        a += kdf_args(r)
    if q['wrap'] != 'none':
        w = need['wkey']
        if q['wrap'] == 'other':
            w = r.choice([x for x in OPEN if x != w])
        if q['wrap'] == 'pub':
            a += ['--wrap-key', key(w + '.pub')]
        elif r.random() < 0.5:
            a += ['--wrap-key', key(w + '_enc.pem'), '--wrap-pass', PASS]
        else:
            a += ['--wrap-key', key(w + '.pem')]
    return q, a


def kdf_args(r):
    """options of a key derivation given to a reader, which change nothing: the key given is the content key"""
    if r.random() < 0.75:
        return []
    return (['--kdf', r.choice(list(KDFS.values()))] + r.choice([[], ['--kdf-info', 'some info'], ['--kdf-info', '0x0102ff'], ['--kdf-uuid']])
            + r.choice([[], ['--kdf-salt', '0x01020304']]))


def kn_of(o):
    return o['kn'][0] if o['kn'] else num(int.from_bytes(hashlib.sha256(bytes(o['key'][0])).digest()[:8], 'big'))


FAULTS = ['by name', 'by hash', 'other name', 'other hash', 'no signer', 'other signer', 'no key', 'other key', 'other mode', 'other number',
          'other salt', 'other wrap', 'public wrap']


def tries(o):
    """what can be missing or wrong"""
    t = ['by name', 'other name', 'other hash']
    if o['sign']:
        t += ['no signer', 'other signer']
    if o['key'] or o['wrap']:
        t += ['no key', 'no key']
    if o['key']:
        t += ['other key', 'other key', 'other mode', 'other number', 'other salt']
    if o['wrap']:
        t += ['other wrap', 'public wrap']
    return t


# ---- the directory ---------------------------------------------------------
def unwrap(wkey, ctx):
    """the content key in a root's wrapper, as FLIC prescribes: (salt, key, mode), or None"""
    f = {t: (o, v) for t, o, v in parse_tlvs(ctx)}
    if 4 not in f or 0 not in f or 2 not in f:
        return None
    label = b'FLIC RSA-OAEP' + b''.join(ctx[f[t][0]:f[t][0] + 4 + len(f[t][1])] for t in (0, 2, 5, 9, 3) if t in f)
    with open(key(wkey + '.pem'), 'rb') as x:
        k = serialization.load_pem_private_key(x.read(), None)
    try:
        m = k.decrypt(f[4][1], padding.OAEP(padding.MGF1(hashes.SHA256()), hashes.SHA256(), label))
    except ValueError:
        return None
    return m[:4], m[4:]


def context_of(b):
    """the fields of the security context of a manifest's packet, as bytes, or None"""
    m = manifest_of(b)
    c = {t: v for t, _, v in parse_tlvs(m)}.get(0) if m is not None else None
    inner = parse_tlvs(c) if c is not None else []
    return inner[0][2] if inner else None


def pointers(node):
    """the hashes of a node, in order"""
    res = []
    for t, _, v in parse_tlvs(node):
        if t == 1:
            for u, _, w in parse_tlvs(v):
                if u == 7:
                    res += [x for _, _, x in parse_tlvs(w)]
    return res


def read_directory(o, need, files):
    """events of the packets in post-order from the root; those that are not reached come first"""
    salt = None
    k = bytes(o['key'][0]) if o['key'] else None
    ccm = o['ccm']
    if o['salt']:
        salt = denum(o['salt'][0])
    if k is None and o['wrap']:
        for b in files:
            c = context_of(b)
            u = unwrap(need['wkey'], c) if c is not None else None
            if u:
                salt, k = int.from_bytes(u[0], 'big'), u[1]
    nodes, pts = {}, {}
    for b in files:
        m, h = manifest_of(b), phash(b)
        if m is None:
            continue
        el = {t: v for t, _, v in parse_tlvs(m)}
        if 1 in el:
            nodes[h] = el[1]
        elif k is not None:
            pt = open_node(m, k, ccm, salt)
            if pt is not None:
                nodes[h] = pts[h] = pt
    by_hash = {phash(b): b for b in files}
    kids = {h: pointers(n) for h, n in nodes.items()}
    pointed = {x for v in kids.values() for x in v}
    order, seen = [], set()

    def walk(h, depth=0):
        if h not in by_hash or depth > 60 or len(order) > 3000:
            return
        for x in kids.get(h, []):
            walk(x, depth + 1)
        order.append(h)
        seen.add(h)
    roots = sorted(h for h in nodes if h not in pointed)
    # the root, if there is one, is named
    for h in roots:
        walk(h)
    order = [h for h in by_hash if h not in seen] + order
    return [dict(b=list(by_hash[h]), h=list(h), pt=[list(pts[h])] if h in pts else []) for h in order]


def signed_by(b, wkey):
    """whether the packet's signature (PKCS#1, over the body and the algorithm) is the key's"""
    top = {t: (o, v) for t, o, v in parse_tlvs(b[8:])}
    if not {2, 3, 4} <= set(top):
        return False
    with open(key(wkey + '.pub'), 'rb') as x:
        k = serialization.load_pem_public_key(x.read())
    part = lambda t: b[8 + top[t][0]:8 + top[t][0] + 4 + len(top[t][1])]
    try:
        k.verify(top[4][1], part(2) + part(3), padding.PKCS1v15(), hashes.SHA256())
        return True
    except Exception:
        return False


KEYID = p_hash(rsakey('signer.pub').keyid())


def payload(b):
    f = {t: v for t, _, v in parse_tlvs(next(v for t, _, v in parse_tlvs(b[8:]) if t == 2))}
    return f.get(1, b'') if manifest_of(b) is None else None


def shown(how, q, argv, data, ev):
    """the reader without an output file: what is on its standard output, and where each payload of the file was found in it"""
    if how is process:
        p = subprocess.run([PY, '-W', 'ignore', '-m', 'ccnpy.apps.manifest_reader'] + argv, input=b'', start_new_session=True, timeout=120,
                           env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        ok, raw = p.returncode == 0, p.stdout
    else:
        import ccnpy.apps.manifest_reader as m
        raw = io.BytesIO()
        text = io.TextIOWrapper(raw, encoding='utf-8', write_through=True)
        level = logging.getLogger().level
        with mock.patch.object(sys, 'argv', ['manifest_reader'] + argv), mock.patch.object(sys, 'stdout', text), \
                mock.patch.object(sys, 'stderr', io.StringIO()):
            try:
                with limit(60):
                    m.run()
                    ok = True
            except (Exception, SystemExit, Timeout):     # noqa: anything may be raised
                ok = False
        logging.getLogger().setLevel(level)
        text.flush()
        raw = raw.getvalue()
    size = max([len(payload(bytes(e['b'])) or b'') for e in ev] + [1])
    at, pos = [], 0
    for i in range(0, len(data), size):
        p = raw.find(data[i:i + size], pos)
        if p < 0:
            break
        at.append(p)
        pos = p + len(data[i:i + size])
    return dict(q=q, ok=ok, raw=list(raw), at=at)


def one(chk, j, k, runs=3, how=tool, wrong=None):
    r = random.Random(f'{chk.seed}-{j}')
    d = tempfile.mkdtemp(dir=chk.dir)
    try:
        o, argv, need, data = concrete(r, k, wrong)
        src, out = os.path.join(d, 'in.bin'), os.path.join(d, 'out')
        with open(src, 'wb') as f:
            f.write(data)
        os.mkdir(out)
        if need.get('bad') == 'input':
            os.unlink(src)
        ok, e = how('manifest_writer', argv + ['-o', out + '/none' * (need.get('bad') == 'directory'), src])
        chk.count('published' if ok else 'refused')
        files, links, names, linksigned = [], 0, True, True
        for f in sorted(os.listdir(out)):
            if f.endswith('.link'):
                links += 1
                with open(os.path.join(out, f), 'rb') as x:
                    linksigned = linksigned and signed_by(x.read(), 'signer')
                continue
            with open(os.path.join(out, f), 'rb') as x:
                b = x.read()
            files.append(b)
            names = names and phash(b).hex() == f
        ev = read_directory(o, need, files) if ok else []
        got = []
        if ok and ev:
            h = bytes(ev[-1]['h'])
            for what in ['right'] + r.sample(tries(o), min(runs, len(tries(o)))):
                q, a = reader_options(r, o, need, what, h)
                path = os.path.join(d, 'got')
                old = r.randbytes(r.randint(1, 3 * len(data))) if r.random() < 0.3 else b''
                if old:                   # an earlier file of that name
                    with open(path, 'wb') as x:
                        x.write(old)
                rok, re_ = how('manifest_reader', a + ['-i', out, '--output', path])
                res = b''
                if os.path.exists(path):
                    with open(path, 'rb') as x:
                        res = x.read()
                    os.unlink(path)
                got.append(dict(what=what, q=q, ok=rok, old=list(old), out=list(res), err='' if rok else f'{ename(re_)}: {re_}'[:120]))
                chk.count('reads')
        seen = []
        if ok and ev and r.random() < 0.35:
            q, a = reader_options(r, o, need, 'right', h)
            seen = [shown(how, q, a + ['-i', out], data, ev)]
            chk.count('shown')
        return dict(id=f'{j} {need.get("bad", "")}', left=len(os.listdir(out)), args=' '.join(argv), o=o, file=list(data), exit=ok, err='' if ok else f'{ename(e)}: {e}'[:200], ev=ev, names=names, links=links,
                    linksigned=linksigned, shown=seen, sigok=bool(ev) and signed_by(bytes(ev[-1]['b']), 'signer'), keyid=KEYID, runs=got)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def describe(x):
    return f"{x['id']} writer {x['args']} file={len(x['file'])} {x['err']} " + ' '.join(f"[{y['what']}: {y['ok']} {y['err']}]" for y in x['runs'])


def prompted(chk, j):
    """passwords that are asked for, and a publication through the network option, by real processes"""
    r = random.Random(f'{chk.seed}-prompt-{j}')
    d = tempfile.mkdtemp(dir=chk.dir)
    try:
        data = r.randbytes(r.randint(1, 6000))
        src, out, got = os.path.join(d, 'in.bin'), os.path.join(d, 'out'), os.path.join(d, 'got')
        with open(src, 'wb') as f:
            f.write(data)
        os.mkdir(out)
        k = dict(s=dict(schema='Hashed', mp=False, dp=False, same=False, ml=False, dl=False), sign='none', link=True,
                 e=dict(k=dict(key=0, ccm=False, kn=False, salt=False), wrap='none', d=dict(kdf=False, info='none')))
        o, argv, need, _ = concrete(r, k)
        # the combination, with passwords on standard input
        right = j % 3 != 2
        w = ['wrap', 'wrap2'][j % 2]
        o['sign'], o['wrap'] = True, [dict(bytes=128, keyid=p_hash(rsakey(w + '.pub').keyid()))]
        o['size'] = []
        argv = [x for i, x in enumerate(argv) if x not in ('-p', '') and x != '-s' and (i == 0 or argv[i - 1] != '-s')]
        argv += ['-k', key('signer_enc.pem'), '--wrap-key', key(w + '_enc.pem'), '-o', out, src]
        ok, e = process('manifest_writer', argv, f'{PASS}\n{PASS if right else "sekret"}\n')
        files = []
        for f in sorted(os.listdir(out)):
            if not f.endswith('.link'):
                with open(os.path.join(out, f), 'rb') as x:
                    files.append(x.read())
        ev = read_directory(o, dict(wkey=w), files) if ok else []
        runs = []
        if ok:
            q = dict(name=o['name'], hash=[], sign='right', key=[], ccm=False, kn=[], salt=[], wrap='right')
            rok, e2 = process('manifest_reader', ['--name', uri_of(o['name']), '-i', out, '--output', got, '-k', key('signer.pub'),
                                                  '--wrap-key', key(w + '_enc.pem'), '--wrap-pass', PASS])
            with open(got, 'rb') as x:
                runs = [dict(what='right', q=q, ok=rok, old=[], out=list(x.read()), err='' if rok else str(e2))]
        chk.count('processes')
        return dict(id=f'prompt {j}', left=len(os.listdir(out)), args=' '.join(argv), o=dict(o, password=right), file=list(data), exit=ok, err='' if ok else str(e)[-150:], ev=ev,
                    names=True, links=0 if not ok else len(os.listdir(out)) - len(files), sigok=bool(ev) and signed_by(bytes(ev[-1]['b']), 'signer'),
                    keyid=KEYID, runs=runs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def over_tcp(chk, j):
    """the writer with -T: the packets that a server on the tool's port receives are those of the publication, and can be retrieved"""
    r = random.Random(f'{chk.seed}-tcp-{j}')
    k = dict(s=dict(schema=r.choice(['Hashed', 'Prefix']), mp=False, dp=False, same=False, ml=False, dl=False), sign='plain', link=False,
             e=dict(k=dict(key=r.choice([0, 16, 32]), ccm=False, kn=False, salt=False), wrap='none', d=dict(kdf=False, info='none')))
    d = tempfile.mkdtemp(dir=chk.dir)
    try:
        o, argv, need, data = concrete(r, k)
        src, out, got = os.path.join(d, 'in.bin'), os.path.join(d, 'out'), os.path.join(d, 'got')
        with open(src, 'wb') as f:
            f.write(data)
        os.mkdir(out)
        try:
            rec = Receiver(r, 9896)
        except OSError:
            chk.assumptions.append('port 9896 is taken: the network option was not exercised')
            return None
        ok, e = tool('manifest_writer', argv + ['-T', src])
        if not ok:
            try:           # the receiver may still wait for a connection
                Real = socket.create_connection(('127.0.0.1', 9896), 2)
                Real.close()
            except OSError:
                pass
        from checks_net import pieces
        stream = rec.all()
        packets = pieces(stream)
        for b in packets:
            with open(os.path.join(out, phash(b).hex()), 'wb') as x:
                x.write(b)
        ev = read_directory(o, need, list(dict.fromkeys(packets))) if ok else []
        runs = []
        if ok and ev:
            q, a = reader_options(r, o, need, 'by hash', bytes(ev[-1]['h']))
            rok, e2 = tool('manifest_reader', a + ['-i', out, '--output', got])
            with open(got, 'rb') as x:
                runs = [dict(what='by hash', q=q, ok=rok, old=[], out=list(x.read()), err='' if rok else str(e2))]
        chk.count('tcp')
        return dict(id=f'tcp {j}', left=0, args=' '.join(argv) + ' -T', o=o, file=list(data), exit=ok, err='' if ok else f'{ename(e)}: {e}'[:200], ev=ev,
                    names=sum(len(b) for b in packets) == len(stream), links=0, sigok=bool(ev) and signed_by(bytes(ev[-1]['b']), 'signer'),
                    keyid=KEYID, runs=runs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def P23(chk):
    r = chk.rng
    combos = chk.generate('CliGen')
    combos.sort(key=json.dumps)
    chk.count('combinations', len(combos))
    r.shuffle(combos)
    # every kind of schema and every kind of encryption, and then any
    picked, seen = [], set()
    for k in combos:
        a, b = json.dumps(k['s']), json.dumps(k['e'])
        if a not in seen or b not in seen:
            seen |= {a, b}
            picked.append(k)
    rest = [k for k in combos if k not in picked and not (k['s']['schema'] == 'Hashed' and k['s']['mp'] + k['s']['dp'])]
    picked += rest[:chk.pick(60, 1500)]
    recs = [one(chk, j, k, chk.pick(2, 5)) for j, k in enumerate(picked)]
    # arguments that cannot be meant
    recs += [one(chk, f'bad {x} {j}', rest[(j * len(BAD) + n) % len(rest)], wrong=x) for n, x in enumerate(BAD) for j in range(chk.pick(3, 30))]
    # whole processes
    plain = [k for k in rest if k['s']['schema'] != 'Segmented' or k['s']['mp'] and k['s']['dp'] and not k['s']['same']]
    recs += [one(chk, f'process {j}', k, 2, process) for j, k in enumerate(plain[-chk.pick(4, 40):])]
    recs += [prompted(chk, j) for j in range(chk.pick(3, 12))]
    recs += [x for x in (over_tcp(chk, j) for j in range(chk.pick(3, 20))) if x]
    for x in recs:
        x['o'].setdefault('password', True)
        x.setdefault('shown', [])
        x.setdefault('linksigned', True)
    chk.judge('CliCheck', recs, describe=describe)
