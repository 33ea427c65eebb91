"""Hand-written behaviour-preserving edits; every check must stay quiet on each.

tools/variants.py [id-substring] [--bugs]   (P=processes; --show prints details)
A definition file in tools/refactorings holds VARIANTS = {id: [(file, old, new), ...]}; with
--bugs, tools/refactorings/bugs_*.py is read instead and each edit must be reported.
"""
import ast
import glob
import multiprocessing as mp
import os
import runpy
import shutil
import sys
import textwrap
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
ROOT = "/repo/src/tatc"


def splice(s, where, new):
    """@func:Name or @func:Class.name replaces a function, @before:... inserts before it."""
    kind, name = where[1:].split(":")
    body = ast.parse(s).body
    for part in name.split("."):
        n = [x for x in body if getattr(x, "name", None) == part][-1]
        body = getattr(n, "body", [])
    first = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
    lines = s.splitlines(keepends=True)
    new = textwrap.indent(textwrap.dedent(new).strip("\n"), " " * n.col_offset) + "\n"
    if kind == "before":
        return "".join(lines[:first]) + new + "\n\n" + "".join(lines[first:])
    return "".join(lines[:first]) + new + "".join(lines[n.end_lineno:])


def work(job):
    key, edits = job
    d = f"/tmp/varw/{os.getppid()}/{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    try:
        import vn.check as C
        from vn.cli import text
        for rel, old, new in edits:
            p = os.path.join(d, "src", "tatc", rel)
            s = open(p).read()
            if old.startswith(("@func:", "@before:")):
                s = splice(s, old, new)
                compile(s, rel, "exec")
                open(p, "w").write(s)
                continue
            if s.count(old) < 1:
                return key, "bad", "not found: " + old[:80]
            if s.count(old) > 1:
                return key, "bad", "ambiguous: " + old[:80]
            s = s.replace(old, new)
            compile(s, rel, "exec")
            open(p, "w").write(s)
        ctx = C.Context(repo=d)
        res = ctx.run()
        for q in ("C18", "C30", "C06"):
            res += ctx.run(q)
        known = {"to_tle:kept-result", "get_closest_tle_index:kept-result", "get_repeat_cycle:kept-result"}
        v = [r for r in res if r.status == "violated" and r.anchor not in known]
        u = [r for r in res if r.status == "undecided"]
        if v:
            return key, "ALARM", "; ".join(r.anchor + " " + text(r.detail)[:700] for r in v[:4])
        if u:
            return key, "undecided", "; ".join(r.anchor + " " + text(r.detail)[:300] for r in u[:4])
        return key, "quiet", ""
    except Exception:
        import traceback
        return key, "error", traceback.format_exc()[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs = "--bugs" in sys.argv
    vs = {}
    for f in sorted(glob.glob(os.path.join(HERE, "tools/refactorings/*.py"))):
        if os.path.basename(f).startswith("bugs_") != bugs:
            continue
        for k, v in runpy.run_path(f)["VARIANTS"].items():
            assert k not in vs, k
            vs[k] = [v] if isinstance(v, tuple) else v
    jobs = [(k, v) for k, v in vs.items() if not args or any(a in k for a in args)]
    good = "ALARM" if bugs else "quiet"
    c = Counter()
    with mp.Pool(int(os.environ.get("P", "8"))) as pool:
        for key, st, why in pool.imap_unordered(work, jobs):
            c[st] += 1
            if st != good or "--show" in sys.argv:
                print(st, key, "|", why, flush=True)
    print(dict(c))
    shutil.rmtree(f"/tmp/varw/{os.getpid()}", ignore_errors=True)


if __name__ == "__main__":
    main()
