"""Builds and confirms planted bugs: tools/plant.py BUGFILE [id ...]

A bug file defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)...], demo)}; files are
relative to src/tatc and the demo is Python.  Each bug is applied in a scratch copy of /repo, must touch only
lines of the original repository, pass the stable tests, and its demo must pass before and fail after.
Confirmed bugs are written to /verif/seeded/<id>/.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
export PYTHONPATH="$PWD/src:/opt/vp/plugins" NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''try:
    import missing_ephemeris  # stands in for the planetary ephemeris, which is not installed here
except ImportError:
    pass
'''


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def plant(bid, b):
    w = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        r = os.path.join(w, "repo")
        sh(f"cp -a /repo {r}")
        d = os.path.join(w, "demo")
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(SH)
        open(d + "/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
        p = sh(f"bash {d}/demo.sh", r)
        if p.returncode != 0:
            return f"{bid}: demo fails on the unchanged tree\n{p.stdout[-600:]}{p.stderr[-1500:]}"
        for f, old, new in b["edits"]:
            q = os.path.join(r, "src/tatc", f)
            s = open(q).read()
            if s.count(old) != 1:
                return f"{bid}: {f}: {s.count(old)} matches of {old!r}"
            open(q, "w").write(s.replace(old, new))
        diff = sh("git diff", r).stdout
        # only original lines are changed
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", sh("git diff -U0", r).stdout, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n:
                fl = re.findall(r"^--- a/(.*)$", sh("git diff -U0", r).stdout[: m.start()], re.M)[-1]
                bl = sh(f"git blame -s -L {a},{a+n-1} HEAD -- {fl}", r).stdout
                base = sh("git rev-list --max-parents=0 HEAD", r).stdout.strip()
                for line in bl.splitlines():
                    if not base.startswith(line.split()[0].lstrip("^")[:7]):
                        return f"{bid}: changes a line added by a fix: {line}"
        p = sh(f"bash {d}/demo.sh", r)
        if p.returncode == 0:
            return f"{bid}: demo passes with the change\n{p.stdout[-500:]}"
        last = (p.stderr.strip().splitlines() or ["?"])[-1]
        if not any(k in last for k in ("AssertionError", "Error")):
            last += " (?)"
        p = sh(f"sed 's#/repo#{r}#g; s#PYTHONPATH=/opt/vp/plugins#PYTHONPATH={r}/src:/opt/vp/plugins#' /opt/vp/test.sh > {w}/test.sh; bash {w}/test.sh {w}/o.json", r)
        try:
            o = json.load(open(w + "/o.json"))
        except OSError:
            return f"{bid}: tests did not run\n{p.stdout[-800:]}{p.stderr[-800:]}"
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base["stable"])
        got = set(o["passed"])
        if not want <= got:
            return f"{bid}: {len(want-got)} stable tests fail: {sorted(want-got)[:3]}"
        out = os.path.join(HERE, "seeded", bid)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(d + "/demo.sh", out)
        shutil.copy(d + "/demo.py", out)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        # what the checks say
        env = dict(os.environ, TATC_REPO=r, VN_EVID=w + "/ev", VERIF_SEED="1", VERIF_TIER="quick")
        c = subprocess.run([HERE + "/bin/check", b["property"], "--tier", "quick"], env=env, capture_output=True,
                           text=True)
        v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
        return f"{bid}: ok [{last[:100]}] check {b['property']} rc={c.returncode} {v[:1]}"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda i: plant(i, bugs[i]), ids):
            print(r, flush=True)


if __name__ == "__main__":
    main()
