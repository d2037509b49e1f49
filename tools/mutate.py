#!/usr/bin/env python3
"""mutate.py list OUT.json          mutants of ccnpy's sources (one small change of the syntax tree each)
   mutate.py survive IN OUT [n]     those that pass the repository's tests (n processes)
   mutate.py check IN OUT [n] [seed k]  runs the checks on a random sample of k survivors, until one catches it
Works in scratch copies under /tmp, which it removes."""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo'
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
       ast.In: ['not in'], ast.NotIn: ['in']}
SKIP_FUN = {'__repr__', '__str__', '_debug_packet'}


def mutants(rel):
    src = open(os.path.join(REPO, rel)).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda ln, col: starts[ln - 1] + col
    out = []

    def add(n, new, kind, start=None, end=None):
        s = pos(n.lineno, n.col_offset) if start is None else start
        e = pos(n.end_lineno, n.end_col_offset) if end is None else end
        out.append(dict(path=rel, s=s, e=e, old=raw[s:e].decode(), new=new, kind=kind, line=raw[:s].count(b'\n') + 1))

    def text(n):
        return raw[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()

    def quiet(n):
        t = text(n)
        return any(w in t for w in ('logger', 'print(', 'DEBUG', 'TypeError', 'isinstance', 'debug')) and len(t) < 300

    def walk(n):
        if isinstance(n, (ast.FunctionDef,)) and n.name in SKIP_FUN:
            return
        if isinstance(n, (ast.AnnAssign,)) and n.value is None:
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
            if quiet(n):
                return
            if isinstance(n, (ast.AugAssign, ast.Raise)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                add(n, 'pass', 'delete')
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                pass
        if isinstance(n, ast.If):
            if quiet(n.test):
                pass
            else:
                add(n.test, 'True', 'true')
                add(n.test, 'False', 'false')
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and not quiet(n):
            for op in CMP.get(type(n.ops[0]), []):
                add(n, f'{text(n.left)} {op} {text(n.comparators[0])}', 'compare')
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(' + text(v) + ')' for v in n.values) + ')', 'bool')
            for k in range(len(n.values)):
                o = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + o.join('(' + text(v) + ')' for j, v in enumerate(n.values) if j != k) + ')', 'bool')
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)) and not isinstance(n.left, ast.Constant):
            new = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*'}[type(n.op)]
            add(n, f'{text(n.left)} {new} {text(n.right)}', 'arith')
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), 'const')
            if n.value > 0:
                add(n, str(n.value - 1), 'const')
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), 'const')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and not quiet(n):
            add(n, '(' + text(n.operand) + ')', 'not')
        if isinstance(n, ast.IfExp):
            add(n, '(' + text(n.body) + ')', 'ifexp')
            add(n, '(' + text(n.orelse) + ')', 'ifexp')
        if isinstance(n, ast.Call) and n.keywords and not quiet(n):
            for k in n.keywords:
                if k.arg and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                    v = k.value
                    add(k, f'{k.arg}=None', 'keyword')
        if isinstance(n, (ast.List,)) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            for k in range(len(n.elts)):
                add(n, '[' + ', '.join(text(v) for j, v in enumerate(n.elts) if j != k) + ']', 'element')
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef,)) and (c in n.decorator_list or c is n.returns):
                continue
            if isinstance(c, ast.arguments):
                for d in c.defaults:
                    walk(d)
                continue
            walk(c)
    walk(ast.parse(src))
    seen, res = set(), []
    for m in out:
        k = (m['s'], m['e'], m['new'])
        if k not in seen and m['old'] != m['new']:
            seen.add(k)
            res.append(m)
    return res


def apply(m, d):
    f = os.path.join(d, m['path'])
    raw = open(os.path.join(REPO, m['path']), 'rb').read()
    open(f, 'wb').write(raw[:m['s']] + m['new'].encode() + raw[m['e']:])


def copy(tag):
    d = f'/tmp/mut-{os.getpid()}-{tag}'
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return d


def run(cmd, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, **kw)
    except subprocess.TimeoutExpired:
        return None


def survive(inp, outp, n):
    ms = json.load(open(inp))
    done = []
    dirs = [copy(i) for i in range(n)]
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()

    def one(m):
        d = dirs.pop()
        try:
            apply(m, d)
            r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'tests'], cwd=d, timeout=60,
                    env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'))
            m['pass'] = bool(r and r.returncode == 0)
        finally:
            shutil.copy(os.path.join(REPO, m['path']), os.path.join(d, m['path']))
            dirs.append(d)
        done.append(m)
        if len(done) % 50 == 0:
            print(len(done), sum(x['pass'] for x in done), flush=True)
            json.dump([x for x in done if x['pass']], open(outp, 'w'))
    try:
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, ms))
    finally:
        json.dump([x for x in done if x['pass']], open(outp, 'w'))
        for d in list(dirs):
            shutil.rmtree(d)


CHECKS = [
    ('apps/cli_utils', 'P23 P28 P29'), ('apps/packet_', 'P28 P23 P27'), ('apps/manifest_', 'P23 P27'), ('apps/', 'P23 P28'),
    ('core/Name', 'P21 P20 P09 P28'), ('core/Timestamp', 'P26 P20'), ('ExpiryTime', 'P26 P09'), ('SignatureTime', 'P26 P13 P09'),
    ('core/DisplayFormatter', 'P28 P20'), ('core/FixedHeader', 'P09 P11 P20'), ('core/Packet', 'P09 P12 P11 P20 P19 P27'), ('core/Validation', 'P13 P09 P20 P11 P28'),
    ('core/Link', 'P09 P20 P19 P10 P28'), ('core/HashValue', 'P20 P09 P12 P10'), ('core/Tlv', 'P09 P11 P20 P10 P22'), ('core/PayloadType', 'P20 P09 P30'),
    ('core/ContentObject', 'P09 P20 P11 P28'), ('core/Interest', 'P09 P11 P20'), ('core/', 'P09 P20 P11 P28 P10'),
    ('crypto/Crc32c', 'P25 P13 P28'), ('crypto/RsaSha256', 'P13 P30 P15'), ('crypto/RsaKey', 'P29 P13 P15 P20'), ('crypto/AeadKey', 'P14 P29 P20'),
    ('crypto/InsecureKeystore', 'P16 P15 P13'), ('crypto/', 'P13 P14 P29 P15'),
    ('RsaOaepCtx/', 'P15 P16 P14 P10 P20'), ('aeadctx/', 'P14 P16 P20'), ('tlvs/', 'P10 P11 P20 P18 P28 P06'),
    ('tree/ManifestGraph', 'P24'), ('tree/TreeIO', 'P19 P27 P23'), ('tree/Traversal', 'P24 P18 P30 P01'), ('tree/Tree', 'P17 P02 P03 P05 P06'),
    ('tree/Optimizer', 'P17 P02'), ('tree/ManifestSize', 'P17 P03 P02'), ('tree/HashGroup', 'P02 P05 P22 P06'), ('tree/Decryptor', 'P16 P30 P01'),
    ('tree/ManifestId', 'P06 P02'), ('tree/', 'P02 P06 P24'), ('name_constructor/', 'P06 P04 P01 P18 P03'), ('ManifestFactory', 'P31 P06 P14'),
    ('HashGroupBuilder', 'P22 P05'), ('ManifestTree', 'P02 P03 P06 P01 P23'), ('flic/', 'P02 P31 P22 P14'), ('', 'P09 P11'),
]
REST = 'P08 P07 P31 P30 P29 P28 P25 P23 P12 P21 P26 P27 P01 P15'.split()


def check(inp, outp, n, seed, k, rest):
    ms = json.load(open(inp))
    random.Random(seed).shuffle(ms)
    done = json.load(open(outp)) if os.path.exists(outp) else []
    have = {(m['path'], m['s'], m['e'], m['new']) for m in done}
    ms = [m for m in ms if (m['path'], m['s'], m['e'], m['new']) not in have][:k]
    dirs = [copy(f'c{i}') for i in range(n)]

    def one(m):
        d = dirs.pop()
        try:
            apply(m, d)
            pids = next(p for q, p in CHECKS if q in m['path']).split()
            if rest:
                pids += [p for p in REST if p not in pids]
            m['caught'], m['ran'], t = None, pids, time.time()
            for p in pids:
                r = run(['/verif/check.sh', p], env=dict(os.environ, CCNPY_REPO=d), timeout=900)
                if r is None or r.returncode != 0:
                    m['caught'] = p if r and r.returncode == 1 else f'{p} error'
                    break
            m['t'] = round(time.time() - t)
        finally:
            shutil.copy(os.path.join(REPO, m['path']), os.path.join(d, m['path']))
            dirs.append(d)
        done.append(m)
        print(m['caught'] or 'MISSED', m['t'], f"{m['path']}:{m['line']}", m['kind'], repr(m['old'][:60]), '->', repr(m['new'][:60]), flush=True)
        json.dump(done, open(outp, 'w'))
    try:
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, ms))
    finally:
        for d in list(dirs):
            shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        out = []
        for root, _, files in os.walk(os.path.join(REPO, 'ccnpy')):
            for f in sorted(files):
                if f.endswith('.py'):
                    out += mutants(os.path.relpath(os.path.join(root, f), REPO))
        json.dump(out, open(sys.argv[2], 'w'))
        print(len(out))
    elif sys.argv[1] == 'survive':
        survive(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 4)
    else:
        check(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), len(sys.argv) > 7)
