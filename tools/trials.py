#!/usr/bin/env python3
"""trials.py FILE: FILE defines T = [(pids, [(path, old, new)...])...]; runs tests and checks on each in scratch copies"""
import sys, subprocess, shutil, os, runpy, json, time
from concurrent.futures import ThreadPoolExecutor
T = runpy.run_path(sys.argv[1])['T']
only = [int(x) for x in sys.argv[2:]]
def run(n):
    pids, edits = T[n]
    d = f'/tmp/tr{os.getpid()}-{n}'
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    out = f'#{n} '
    try:
        for p, old, new in edits:
            f = os.path.join(d, 'ccnpy', p); s = open(f).read()
            if s.count(old) < 1: return out + f'NO MATCH {old!r}'
            open(f, 'w').write(s.replace(old, new, 1))
        r = subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','--timeout=200','-x','tests'],cwd=d,capture_output=True,text=True,env=dict(os.environ,PYTHONPATH=d,PYTHONDONTWRITEBYTECODE='1'))
        out += 'tests ' + ('ok ' if r.returncode == 0 else 'FAIL ') 
        for p in pids.split():
            t=time.time()
            r = subprocess.run(['/verif/check.sh', p], capture_output=True, text=True, env=dict(os.environ, CCNPY_REPO=d))
            line = [l for l in r.stdout.splitlines() if l.startswith('  ')][:1]
            out += f'| {p} rc={r.returncode} {time.time()-t:.0f}s {line[0].strip()[:110] if line else (r.stderr[-200:] if r.returncode==2 else "MISSED" if r.returncode==0 else "")} '
    finally:
        shutil.rmtree(d)
    return out + f'   <{edits[0][2].strip()[:70]}>'
with ThreadPoolExecutor(3) as ex:
    for o in ex.map(run, only or range(len(T))):
        print(o, flush=True)
