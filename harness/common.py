"""Shared parts of the checks: paths, TLC, evidence, violations."""
import contextlib, io, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CCNPY_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'

TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
DEVNULL = open(os.devnull, 'w')


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout('time limit')


@contextlib.contextmanager
def limit(seconds):
    """No call into the code under test may hang the check."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    """The code under test prints; keep that out of the verdict."""
    with contextlib.redirect_stdout(DEVNULL), contextlib.redirect_stderr(DEVNULL):
        yield


def attempt(f, *a, seconds=20, **kw):
    """(True, value) or (False, exception)."""
    try:
        with quiet(), limit(seconds):
            return True, f(*a, **kw)
    except (Exception, Timeout) as e:      # noqa: the code under test may raise anything
        return False, e
    except SystemExit as e:
        return False, e


def ename(e):
    return type(e).__name__


def ebytes(x):
    return [int(v) for v in x]


class TlcError(Exception):
    pass


class Check:
    """One run of one check."""

    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random(f'{pid}-{self.seed}')
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.counts = {}
        self.exhaustive = None
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.tlc_runs = []
        base = os.path.join(VERIF, 'work')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=f'{pid}-', dir=base)
        self.known = load_known(pid)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=None, args=(), timeout=600, heap='6g', simulate=None):
        """Runs TLC on spec/<module>.tla; returns (exit code, output)."""
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
        cfg = cfg or module + '.cfg'
        cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', '-cp', TLA_CP, 'tlc2.TLC',
               '-config', os.path.join(SPEC, cfg), '-metadir', meta, '-noGenerateSpecTE',
               '-workers', str(workers or min(8, os.cpu_count() or 1)), '-lncheck', 'final']
        if simulate:
            cmd += ['-simulate', simulate]
        cmd += list(args) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        p = subprocess.run(cmd, cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states', out)
        st = tr = 0
        if m:
            tr, st = (int(x.replace(',', '')) for x in m[-1])
        self.states += st
        self.transitions += tr
        self.tlc_runs.append(dict(module=module, cfg=cfg, states=st, transitions=tr,
                                  seconds=round(time.time() - t, 1), rc=p.returncode))
        return p.returncode, out

    def model(self, module, cfg=None, deadlock=False, **kw):
        """Exhaustive (or simulated) checking of the model itself: an error here is an error of the framework."""
        rc, out = self.tlc(module, cfg, args=() if deadlock else ('-deadlock',), **kw)
        if rc != 0:
            raise TlcError(f'model {module} {cfg}: rc {rc}\n' + tail(out))
        return out

    def model_breaks(self, module, cfg, **kw):
        """A model without its defence must violate an invariant: shows that the invariants can fail."""
        rc, out = self.tlc(module, cfg, args=('-deadlock',), **kw)
        if rc not in (12, 13):
            raise TlcError(f'model {module} {cfg} should violate an invariant or property: rc {rc}\n' + tail(out))

    def generate(self, module, cfg=None, env=None, **kw):
        """TLC writes cases or behaviours to a file; returns them."""
        path = os.path.join(self.dir, f'gen-{module}-{len(self.tlc_runs)}.ndjson')
        ev = {'OUT': path}
        ev.update(env or {})
        rc, out = self.tlc(module, cfg, env=ev, args=('-deadlock',), **kw)
        if rc != 0 or not os.path.exists(path):
            raise TlcError(f'generator {module} {cfg}: rc {rc}\n' + tail(out))
        with open(path) as f:
            return [json.loads(l) for l in f if l.strip()]

    def judge(self, module, records, cfg=None, env=None, describe=None, timeout=800, heap='6g', batch_bytes=40_000_000):
        """
        TLC evaluates the specification on every record of the trace, and prints the clauses that a record violates.
        A violated clause is a violation of the property.
        """
        if not records:
            return
        batches, cur, size = [], [], 0
        for r in records:
            line = json.dumps(r, separators=(',', ':'))
            if cur and size + len(line) > batch_bytes:
                batches.append(cur); cur, size = [], 0
            cur.append(line); size += len(line)
        batches.append(cur)
        self.sample(records[0]); self.sample(records[len(records) // 2])
        base = 0
        for b in batches:
            path = os.path.join(self.dir, f'trace-{len(self.tlc_runs)}.ndjson')
            with open(path, 'w') as f:
                f.write('\n'.join(b) + '\n')
            ev = {'TRACE': path, 'PID': self.pid}
            ev.update(env or {})
            rc, out = self.tlc(module, cfg, env=ev, args=('-deadlock',), timeout=timeout, heap=heap)
            fails = re.findall(r'<<\s*"FAIL",\s*(\d+),\s*"([^"]*)"\s*>>', out)
            done = re.findall(r'<<\s*"DONE",\s*(\d+)\s*>>', out)
            if rc != 0 or len(set(done)) != len(b):
                raise TlcError(f'judge {module}: rc {rc}, {len(set(done))} of {len(b)} records\n' + tail(out))
            self.traces += len(b)
            for i, clause in sorted({(int(i), c) for i, c in fails}):
                rec = records[base + i - 1]
                self.violation(clause, rec, describe(rec) if describe else rec.get('id', f'record {base + i}'))
            base += len(b)

    # ---- verdict ---------------------------------------------------------
    def violation(self, clause, record, what):
        for k in self.known:
            if k['clause'] == clause and k['match'] in what:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return
        self.violations.append(dict(clause=clause, what=what, record=record))

    def sample(self, case):
        """Keeps a few actual cases for the evidence."""
        if len(self.samples) < 6:
            t = case if isinstance(case, str) else json.dumps(case)
            self.samples.append(case if len(t) < 3000 else t[:3000] + '...')

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def finish(self):
        wall = round(time.time() - self.t0, 1)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples,
                   tlc_runs=self.tlc_runs, **self.counts)
        if self.exhaustive is not None:
            cov['exhaustive_domains'] = self.exhaustive
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=wall, violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hits:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        rc = 0
        if self.violations:
            rdir = os.path.join(VERIF, 'work', 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{self.pid}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, violations=self.violations[:20]), f)
            for v in self.violations[:10]:
                print(f"  {v['clause']}: {v['what']}"[:400])
            print(f"  ({len(self.violations)} in all)")
            print(f'VIOLATION property={self.pid} replay={path}')
            rc = 1
        else:
            print(f"OK {self.pid} [{self.tier}] {self.traces} traces judged, {self.states} states, {wall}s "
                  + ' '.join(f'{k}={v}' for k, v in self.counts.items()))
        shutil.rmtree(self.dir, ignore_errors=True)
        return rc


def in_repo(e):
    """Was this exception raised by (or below) the code under test?"""
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(REPO) + os.sep):
            return True
        tb = tb.tb_next
    return False


def main(pid, body):
    """Runs one check: exit 0 held, 1 violated, 2 machinery failure."""
    import argparse, traceback
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', default=None)
    a = ap.parse_args(sys.argv[2:])
    chk = Check(pid, a.tier, a.seed)
    try:
        body(chk)
    except Exception as e:
        if in_repo(e):
            # the harness only makes calls that the property says must succeed, unless it expects an error
            chk.violations.append(dict(clause='raised', what=f'{ename(e)}: {e}', record=traceback.format_exc()))
        else:
            traceback.print_exc()
            if not chk.violations:
                shutil.rmtree(chk.dir, ignore_errors=True)
                return 2
    return chk.finish()


def tail(out, n=60):
    return '\n'.join(out.splitlines()[-n:])


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('{'):
                k = json.loads(l)
                if k.get('kind') == 'finding' and k['property'] == pid:
                    res.append(k)
    return res
