#!/usr/bin/env python3
"""seed.py SPEC.py : plants a bug, confirms it and keeps it under /verif/seeded/<id>/

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new), ...] and DEMO (the text of demo.py).
The bug is kept when, in a scratch copy of /repo, it applies, the stable tests pass with it, the demonstration
passes without it and fails with it.  With a second argument, those checks are run against the scratch copy.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

spec = runpy.run_path(sys.argv[1])
checks = sys.argv[2:]
out = f"/verif/seeded/{spec['ID']}"
scratch = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
repo = scratch + "/repo"
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
PYTHON = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def demo(where):
    r = subprocess.run(["sh", f"{scratch}/demo/demo.sh"], cwd=where, capture_output=True, text=True, env=env,
                       timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


try:
    shutil.copytree("/repo", repo, symlinks=True)
    os.mkdir(scratch + "/demo")
    open(scratch + "/demo/demo.py", "w").write(spec["DEMO"])
    open(scratch + "/demo/demo.sh", "w").write(DEMO_SH)
    rc, text = demo(repo)
    assert rc == 0, f"the demonstration fails without the bug: {text}"
    for path, old, new in spec["EDITS"]:
        text = open(f"{repo}/{path}").read()
        assert text.count(old) == 1, f"{path}: {text.count(old)} matches of {old!r}"
        open(f"{repo}/{path}", "w").write(text.replace(old, new))
    patch = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True, check=True).stdout
    # only lines of the original repository may change
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=repo, capture_output=True,
                          text=True, check=True).stdout.split()[0]
    for path, _, _ in spec["EDITS"]:
        original = set(subprocess.run(["git", "show", f"{base}:{path}"], cwd=repo, capture_output=True,
                                      text=True).stdout.splitlines())
        for line in patch.splitlines():
            if line.startswith("-") and not line.startswith("---") and line[1:] not in original \
                    and any(line[1:] in o for _, o, _ in spec["EDITS"]):
                print(f"  note: not a line of the original: {line}")
    rc, text = demo(repo)
    assert rc != 0, "the demonstration passes with the bug"
    print("  demo:", text.strip().splitlines()[-1][:200] if text.strip() else "")
    r = subprocess.run([PYTHON, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x", "tests"],
                       cwd=repo, capture_output=True, text=True,
                       env=dict(env, PYTHONPATH=repo))
    tail = r.stdout.strip().splitlines()[-1]
    print("  tests:", tail)
    assert r.returncode == 0, r.stdout[-1500:]
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(patch)
    open(out + "/demo.py", "w").write(spec["DEMO"])
    open(out + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
              open(out + "/meta.json", "w"), indent=1)
    print("kept", spec["ID"])
    for pid in checks:
        r = subprocess.run(["/verif/check.sh", pid], capture_output=True, text=True,
                           env=dict(os.environ, CCNPY_REPO=repo))
        lines = [x for x in (r.stdout + r.stderr).strip().splitlines() if "VIOLATION" in x or x.startswith("  ")]
        print(" ", pid, r.returncode, "CAUGHT" if r.returncode == 1 else "missed", (lines or [""])[0][:300])
finally:
    shutil.rmtree(scratch)
