"""
Results kept between calls.

A result stored on an instance, or behind a caching decorator, answers later calls; it must not
outlive the values it was computed from.  The models here can be changed after construction
(attribute assignment, model_copy(update=...)), so a kept result that depends on a field is stale
afterwards unless something discards it.  Every such store is a construct the rule reports.
"""
import ast

from .pyload import dotted

DECOS = {"functools.lru_cache", "functools.cache", "functools.cached_property", "cachetools.cached",
         "joblib.Memory.cache", "pydantic.computed_field"}


def invalidates(p, c):
    """A class that discards kept results when it changes, or cannot change."""
    for k in p.mro(c):
        if "__setattr__" in k.methods and "model_copy" in k.methods:
            return True
        cfg = k.consts.get("model_config")
        if cfg is not None:
            for x in ast.walk(cfg):
                if isinstance(x, ast.keyword) and x.arg == "frozen" and isinstance(x.value, ast.Constant) and x.value.value:
                    return None
                if isinstance(x, ast.Dict):
                    for a, b in zip(x.keys, x.values):
                        if isinstance(a, ast.Constant) and a.value == "frozen" and getattr(b, "value", False):
                            return None
    return False


def instance_stores(f):
    """Stores of a kept result on self: (node, key)."""
    out = []
    params = f.params()
    me = params[0] if params else None
    for x in ast.walk(f.node):
        ts = []
        if isinstance(x, ast.Assign):
            ts = x.targets
        elif isinstance(x, (ast.AnnAssign, ast.AugAssign)):
            ts = [x.target]
        elif isinstance(x, ast.NamedExpr):
            ts = [x.target]
        for t in ts:
            for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(u, ast.Subscript) and dotted(u.value) in (f"{me}.__dict__", "vars"):
                    out.append((u, u.slice.value if isinstance(u.slice, ast.Constant) else None))
                elif isinstance(u, ast.Attribute) and isinstance(u.value, ast.Name) and u.value.id == me and u.attr.startswith("_"):
                    out.append((u, u.attr))
        if isinstance(x, ast.Call):
            d = dotted(x.func) or ""
            if d in ("setattr", "object.__setattr__") and len(x.args) == 3 and dotted(x.args[0]) == me:
                out.append((x, getattr(x.args[1], "value", None)))
            elif d.startswith(f"{me}.__dict__.") and d.split(".")[-1] in ("update", "setdefault", "__setitem__"):
                out.append((x, None))
    return out


def calls_of(f):
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            out.add(x.func.attr)
        elif isinstance(x, ast.Attribute):
            out.add(x.attr)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
            out.add(x.func.id)
    return out


def reads_config(p, f, seen=None):
    seen = seen if seen is not None else set()
    if f.qual in seen:
        return False
    seen.add(f.qual)
    for x in ast.walk(f.node):
        d = dotted(x) if isinstance(x, (ast.Attribute, ast.Name)) else None
        r = p.resolve(f.module, d) if d else None
        if r is not None and r[0] in ("const", "frozen") and r[1].name == "tatc.config" and r[2] == "rc":
            return True
        if r is not None and r[0] == "func" and not r[1].qual.startswith("specs.") and reads_config(p, r[1], seen):
            return True
    return False


def check_caches(ctx, prop, Spec, Result):
    if prop is not None and prop != "C06":
        return []
    import os
    from .check import HERE
    from .nodes import raw
    p = ctx.p
    with open(os.path.join(HERE, "specs", "public.txt"), encoding="utf-8") as fh:
        public = {q.rsplit(".", 1)[1] for q in fh.read().split()}
    funcs = {q: f for q, f in p.funcs.items() if not q.startswith("specs.")}
    users = {}
    for f in funcs.values():
        for n in calls_of(f):
            users.setdefault(n, set()).add(f.name)

    def entries(name):
        """Documented methods through which a helper is reached."""
        seen, todo, out = {name}, [name], set()
        while todo:
            n = todo.pop()
            if n in public:
                out.add(n)
                continue
            for u in users.get(n, ()):
                if u not in seen:
                    seen.add(u)
                    todo.append(u)
        return out or {name}

    found = {}
    n = 0
    for q, f in funcs.items():
        n += 1
        if f.cls is not None and p.is_model(f.cls) and f.name != "__init__":
            inv = invalidates(p, f.cls)
            fields = set(p.all_fields(f.cls))
            for node, key in instance_stores(f):
                if key in fields:
                    continue
                if inv is None:
                    continue
                for e in entries(f.name):
                    found.setdefault(e, []).append((f, node, "kept on the instance", inv))
        for d in f.node.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            dd = dotted(x)
            r = p.resolve(f.module, dd) if dd else None
            name = r[1] if r is not None and r[0] == "ext" else dd
            if name in DECOS and name != "pydantic.computed_field":
                if f.cls is not None and p.is_model(f.cls):
                    for e in entries(f.name):
                        found.setdefault(e, []).append((f, d, f"@{dd} on a model method", False))
                elif reads_config(p, f):
                    for e in entries(f.name):
                        found.setdefault(e, []).append((f, d, f"@{dd} on a function that reads the settings", False))
    out = []
    for e, sites in sorted(found.items()):
        label = f"{e}:kept-result"
        f, node, what, inv = sites[0]
        if inv:
            r = Result(Spec(["C06"], label, None), label, "undecided", "the class discards kept results itself", f.loc())
        else:
            r = Result(Spec(["C06"], label, None), label, "violated",
                       (f"{what}, not discarded when a field changes ({len(sites)} sites)", raw("missing"), raw("missing")),
                       f"{f.module.relpath}:{node.lineno}")
        r.rule = "a kept result is discarded when what it was computed from changes"
        out.append(r)
    r = Result(Spec(["C06"], "all methods", None), "tatc.(kept results)", "proved", f"{n} functions scanned", "src/tatc")
    r.rule = "a kept result is discarded when what it was computed from changes"
    r.steps = n
    out.append(r)
    return out
