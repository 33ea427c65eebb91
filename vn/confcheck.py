"""
Configuration: the shipped settings, the settings in force after import, and when they are read.
"""
import ast
import os

from . import nodes as V
from .nodes import raw, num
from .pyload import Func, dotted
from .models import Reader, OUTSIDE

CONFIG = "tatc.config"


def missing(why):
    return (why, raw("missing"), raw("missing"))


def scalar(text):
    t = text.strip()
    if t.lower() in ("true", "yes", "on"):
        return True
    if t.lower() in ("false", "no", "off"):
        return False
    try:
        return int(t)
    except ValueError:
        return float(t)


def read_flat(path):
    try:
        import yaml
        with open(path, encoding="utf-8") as f:
            return yaml.safe_load(f)
    except ImportError:
        pass
    out = {}
    with open(path, encoding="utf-8") as f:
        for line in f:
            line = line.split("#")[0].rstrip()
            if line.strip() and line.strip() != "---":
                k, v = line.split(":", 1)
                out[k.strip()] = scalar(v)
    return out


def check_defaults(ctx, Spec, Result):
    """Every setting in the shipped file has the documented value."""
    out = []
    rel = "src/tatc/resources/defaults.yml"
    path = os.path.join(ctx.repo, rel)
    sc = next(c for _, a, c in ctx.models if a == CONFIG + ".RuntimeConfiguration")
    ev = ctx.evaluator(ctx.keepset())
    rd = Reader(ctx, ev, "spec")
    s = Spec(["C30"], rel, None)
    if not os.path.exists(path):
        return [Result(s, rel, "undecided", "no shipped settings file", rel)]
    try:
        data = read_flat(path)
    except Exception as e:
        return [Result(s, rel, "violated", missing(f"the shipped settings cannot be parsed: {e}"), rel)]
    if not isinstance(data, dict):
        return [Result(s, rel, "violated", missing("the shipped settings are not a mapping"), rel)]
    ref = ctx.p.all_fields(sc)
    for n, f in ref.items():
        label = f"{rel}:{n}"
        r = Result(Spec(["C30"], label, None), label, "proved", "", rel)
        r.rule = "shipped value equals the documented default"
        if n in data:
            want = rd.default(rd.field(f))
            x = data[n]
            got = V.TRUE if x is True else V.FALSE if x is False else num(x) if isinstance(x, (int, float)) else None
            if got is None or got is not want:
                r.status = "violated"
                r.detail = missing(f"{n} is {x!r}, documented default {V.show(want)}")
        out.append(r)
    return out


def check_initial(ctx, Spec, Result):
    """The module-level statements that bind rc, as a function."""
    m = ctx.p.modules.get(CONFIG)
    label = CONFIG + ".rc"
    ref = ctx.p.funcs["specs.configuration.initial"]
    s = Spec(["C30"], label, ref)
    if m is None or "rc" not in m.names:
        return [Result(s, label, "violated", missing("config.rc is gone"), "")]
    body, line = [], 0
    for st in m.tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        if any(isinstance(x, (ast.Global, ast.Import, ast.ImportFrom)) for x in ast.walk(st)):
            return [Result(s, label, "undecided", "module initialisation", m.relpath)]
        body.append(st)
        if not line and any(isinstance(x, ast.Name) and x.id == "rc" and isinstance(x.ctx, ast.Store) for x in ast.walk(st)):
            line = st.lineno
    fn = ast.parse("def initial():\n    pass").body[0]
    fn.body = body + [ast.Return(ast.Name("rc", ast.Load()))]
    ast.fix_missing_locations(fn)
    f = Func(CONFIG + ".(initialisation)", fn, m)
    # the loader is expanded: which failures it reports decides the fallback
    res = ctx.decide(s, label, f, None, ctx.keepset() - {CONFIG + ".load_yaml_config"})
    res.loc = f"{m.relpath}:{line}"
    return [res]


def import_time(tree):
    """Expressions evaluated when the module is imported."""
    def go(body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in st.decorator_list + st.args.defaults + [x for x in st.args.kw_defaults if x is not None]:
                    yield d
                continue
            if isinstance(st, ast.ClassDef):
                yield from st.bases
                yield from st.decorator_list
                yield from go(st.body)
                continue
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    yield x
            for part in ("body", "orelse", "finalbody"):
                yield from go(getattr(st, part, []) or [])
            for h in getattr(st, "handlers", []) or []:
                yield from go(h.body)
    yield from go(tree.body)


def strip_lambda(e):
    """Sub-expressions evaluated with e (not inside a lambda)."""
    st = [e]
    while st:
        x = st.pop()
        yield x
        if not isinstance(x, ast.Lambda):
            st.extend(ast.iter_child_nodes(x))


def check_capture(ctx, Spec, Result):
    """Settings are read when a function runs, not when a module is imported."""
    out = []
    p = ctx.p
    for name, m in sorted(p.modules.items()):
        if name.startswith("specs.") or name == CONFIG:
            continue
        label = f"{name}.(settings read at import)"
        r = Result(Spec(["C30"], label, None), label, "proved", "", m.relpath)
        r.rule = "no expression evaluated at import reads the settings object"
        n = 0
        for e in import_time(m.tree):
            for x in strip_lambda(e):
                n += 1
                if not isinstance(x, (ast.Attribute, ast.Name)):
                    continue
                d = dotted(x)
                t = p.resolve(m, d) if d else None
                if t is not None and t[0] in ("const", "frozen") and t[1].name == CONFIG and t[2] == "rc":
                    r.status = "violated"
                    r.loc = f"{m.relpath}:{x.lineno}"
                    r.detail = missing(f"{ast.unparse(e)[:120]} is evaluated once at import")
        # a name bound by `from config import rc` and used by a function
        for k, v in m.names.items():
            if v[0] == "from" and r.status == "proved":
                t = p.lookup(m, k)
                if t is not None and t[0] == "frozen" and t[1].name == CONFIG:
                    for x in ast.walk(m.tree):
                        if isinstance(x, ast.Name) and x.id == k:
                            r.status = "violated"
                            r.loc = f"{m.relpath}:{x.lineno}"
                            r.detail = missing(f"{k} is bound at import, so replacing config.rc has no effect here")
                            break
        r.steps = n
        out.append(r)
    return out


def check_config(ctx, prop, Spec, Result):
    if prop is not None and prop != "C30":
        return []
    out = []
    for f in (check_defaults, check_initial, check_capture):
        try:
            out += f(ctx, Spec, Result)
        except OUTSIDE as e:
            out.append(Result(Spec(["C30"], f.__name__, None), f.__name__, "undecided", str(e), ""))
    return out
