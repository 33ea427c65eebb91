"""
Effects on caller-supplied objects.

A flow-sensitive alias analysis over the syntax tree.  An abstract value is a pair of root
sets: `own` (the object is, or is a part of, the object the root names) and `deep` (an object
reached through it is).  A store, deletion or in-place operation whose receiver has a
parameter among its `own` roots modifies what the caller passed in.  Calls into the program
use summaries (which parameters are modified, which are returned), computed to a fixpoint.
"""
import ast

from .pyload import dotted

E = frozenset()


class Val:
    __slots__ = ("own", "deep", "kind", "keys")

    def __init__(self, own=E, deep=E, kind=None, keys=None):
        self.own, self.deep, self.kind = own, deep, kind
        self.keys = keys          # values of a local dict display, by constant key

    def join(self, o):
        ks = None
        if self.keys is not None and o.keys is not None and set(self.keys) == set(o.keys):
            ks = {k: v.join(o.keys[k]) for k, v in self.keys.items()}
        elif self.keys is not None and not (o.own or o.deep):
            ks = self.keys
        elif o.keys is not None and not (self.own or self.deep):
            ks = o.keys
        return Val(self.own | o.own, self.deep | o.deep, self.kind if self.kind == o.kind else None, ks)


def fuzzy(rs):
    """Roots that may, but need not, be the ones an element refers to."""
    return frozenset(r if r.startswith("?") else "?" + r for r in rs)


IMMUTABLE = {"str", "float", "int", "bool", "timedelta", "datetime", "time", "Literal", "date", "complex", "bytes",
             "NonNegativeInt", "PositiveInt", "PositiveFloat", "NonNegativeFloat", "confloat", "conint"}


FRESH = Val()
STATEMENT_MUTATORS = {
    "append", "extend", "insert", "remove", "clear", "sort", "reverse", "update", "add", "discard",
    "fill", "itemset", "put", "resize", "setflags", "partition", "difference_update", "appendleft",
    "intersection_update", "symmetric_difference_update", "setfield", "byteswap",
}
VALUE_MUTATORS = {"pop", "popitem", "setdefault", "popleft", "__setitem__", "__delitem__", "__setattr__", "__iadd__"}
SHALLOW = {"list", "tuple", "sorted", "reversed", "dict", "set", "frozenset", "enumerate", "zip", "iter",
           "copy.copy", "itertools.chain", "filter", "map", "next", "max", "min", "itertools.islice"}
ALIAS = {"numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel",
         "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.ascontiguousarray", "typing.cast"}
ALIAS_ATTR = {"loc", "iloc", "at", "iat", "values", "T", "columns", "index", "flat", "__dict__", "real", "imag", "geometry"}
ALIAS_METHODS = {"reshape", "ravel", "squeeze", "transpose", "view", "swapaxes"}
DEEP_METHODS = {"get", "items", "values", "keys", "pop", "setdefault", "popitem", "__getitem__", "elements", "popleft"}
FIRST_ARG = {"setattr", "delattr", "numpy.put", "numpy.copyto", "numpy.fill_diagonal", "numpy.place", "numpy.putmask",
             "random.shuffle", "numpy.random.shuffle", "heapq.heappush", "heapq.heapify", "heapq.heappop",
             "heapq.heapreplace", "operator.setitem", "operator.delitem", "operator.iadd", "bisect.insort",
             "object.__setattr__", "object.__delattr__"}
MUTABLE_TYPES = {"list", "List", "dict", "Dict", "set", "Set", "ndarray", "GeoDataFrame", "DataFrame", "Series",
                 "GeoSeries", "NDArray", "bytearray"}
FRAMES = {"GeoDataFrame", "DataFrame"}


class Summary:
    def __init__(self, n):
        self.mutates = {}        # parameter -> (lineno, text)
        self.returns_own = set()
        self.returns_deep = set()


class Effects:
    def __init__(self, program, exclude=()):
        self.p = program
        self.funcs = {q: f for q, f in program.funcs.items() if not q.startswith("specs.")}
        self.sum = {q: Summary(0) for q in self.funcs}
        self.methods = {}
        for q, f in self.funcs.items():
            if f.cls is not None:
                self.methods.setdefault(f.name, []).append(f)
        # attribute names that only ever hold immutable values
        plain, other = set(), set()
        for c in program.classes.values():
            for n, f in c.fields.items():
                (plain if type_name(f.ann) in IMMUTABLE else other).add(n)
        self.plain = plain - other - {"geometry", "values", "index", "columns"}
        self.sites = 0
        for _ in range(8):
            before = self.snapshot()
            self.sites = 0
            for q, f in self.funcs.items():
                self.sum[q] = FuncEffects(self, f).run()
            if self.snapshot() == before:
                break

    def snapshot(self):
        return {
            q: (tuple(sorted(s.mutates)), tuple(sorted(s.returns_own)), tuple(sorted(s.returns_deep)))
            for q, s in self.sum.items()
        }


def type_name(a):
    if a is None:
        return None
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(a, ast.Subscript):
        n = (dotted(a.value) or "").split(".")[-1]
        if n == "Optional":
            return type_name(a.slice)
        if n == "Union":
            return None
        return n
    return (dotted(a) or "").split(".")[-1] or None


class FuncEffects:
    def __init__(self, eff, f, env=None):
        self.eff, self.f = eff, f
        self.p = eff.p
        self.s = Summary(0)
        self.env = {}
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            r = frozenset([x.arg])
            if x.arg == "cls" and f.cls is not None:
                r = E
            self.env[x.arg] = Val(r, r, type_name(x.annotation))
        for x in (a.vararg, a.kwarg):
            if x is not None:
                # the container is made by the call, its elements are the caller's
                r = frozenset([x.arg])
                self.env[x.arg] = Val(E, r, None)
        self.fields = set()
        if f.cls is not None:
            self.fields = set(self.p.all_fields(f.cls))

    def run(self):
        self.block(self.f.node.body)
        return self.s

    # ---------------------------------------------------------- recording

    def mutate(self, v, node, what):
        self.eff.sites += 1
        for r in v.own:
            self.s.mutates.setdefault(r, (getattr(node, "lineno", 0), what))
            if r.startswith("?"):
                continue

    # ---------------------------------------------------------- statements

    def block(self, body):
        for st in body:
            self.stmt(st)

    def branch(self, *bodies):
        start = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                outs.append(self.env)
        if not outs:
            outs = [start]
        env = {}
        for e in outs:
            for k, v in e.items():
                env[k] = env[k].join(v) if k in env else v
        self.env = env

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            self.ev(s.value, stmt=True)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            rhs = self.ev(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                v = self.env.get(t.id)
                if v is not None:
                    listy = isinstance(s.value, (ast.List, ast.ListComp, ast.Dict, ast.Set)) or rhs.kind == "list"
                    if v.own and (v.kind in MUTABLE_TYPES or listy):
                        self.mutate(v, s, f"{t.id} is changed in place")
                    self.env[t.id] = Val(v.own, v.deep | rhs.deep, v.kind)
            else:
                self.store(t, s)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
                else:
                    self.store(t, s)
        elif isinstance(s, (ast.If,)):
            self.ev(s.test)
            self.branch(s.body, s.orelse)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            for _ in range(2):
                start = dict(self.env)
                self.assign(s.target, self.element(it, s.iter), None)
                self.block(s.body)
                self.merge(start)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                start = dict(self.env)
                self.ev(s.test)
                self.block(s.body)
                self.merge(start)
            self.block(s.orelse)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            start = dict(self.env)
            self.block(s.body)
            mid = dict(self.env)
            outs = []
            self.block(s.orelse)
            outs.append(self.env)
            for h in s.handlers:
                self.env = dict(start)
                self.merge(mid)
                self.block(h.body)
                outs.append(self.env)
            self.env = outs[0]
            for o in outs[1:]:
                self.merge(o)
            self.block(s.finalbody)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, FRESH, None)
            self.block(s.body)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value)
                self.s.returns_own |= v.own
                self.s.returns_deep |= v.deep
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.nested(s)
        elif isinstance(s, ast.Match):
            self.ev(s.subject)
            self.branch(*[c.body for c in s.cases], [])
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.ev(x)

    def merge(self, other):
        for k, v in other.items():
            self.env[k] = self.env[k].join(v) if k in self.env else v

    def nested(self, fn):
        save = dict(self.env)
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.env[x.arg] = FRESH
        own, deep = set(self.s.returns_own), set(self.s.returns_deep)
        self.block(fn.body if isinstance(fn.body, list) else [ast.Expr(fn.body)])
        self.s.returns_own, self.s.returns_deep = own, deep
        self.env = save
        if hasattr(fn, "name"):
            self.env[fn.name] = FRESH

    def assign(self, t, v, src):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, Val(E, v.deep), None)
                elif isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                    self.assign(x, self.ev(src.elts[i]), src.elts[i])
                else:
                    self.assign(x, Val(v.deep, v.deep), None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)
        else:
            self.store(t, t)
            self.absorb(t, v)

    def absorb(self, t, v):
        """x[k] = v makes what v reaches reachable from x."""
        while isinstance(t, (ast.Attribute, ast.Subscript)):
            t = t.value
        if isinstance(t, ast.Name) and t.id in self.env:
            o = self.env[t.id]
            self.env[t.id] = Val(o.own, o.deep | fuzzy(v.own | v.deep), o.kind)

    def store(self, t, node):
        """Store into an attribute or an item."""
        if isinstance(t, ast.Subscript):
            self.ev(t.slice)
            base = self.ev(t.value)
            if self.is_cache(t):
                return
            self.mutate(base, node, f"item of {ast.unparse(t.value)[:60]} is assigned")
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            d = dotted(t)
            if d is not None and self.is_global(d):
                self.s.mutates.setdefault("<global>", (getattr(node, "lineno", 0), f"{d} is assigned"))
            if t.attr.startswith("_") and isinstance(t.value, ast.Name) and t.value.id == "self":
                return
            self.mutate(base, node, f"attribute {ast.unparse(t)[:60]} is assigned")

    def is_cache(self, t):
        """self.__dict__[key] with a key that is not a field."""
        d = dotted(t.value)
        if d is None or not d.endswith(".__dict__"):
            return False
        k = t.slice
        if isinstance(k, ast.Constant):
            return k.value not in self.fields
        return True

    def is_global(self, d):
        head = d.split(".")[0]
        if head in self.env:
            return False
        r = self.p.resolve(self.f.module, d.rsplit(".", 1)[0])
        if r is None:
            parts = d.split(".")
            for k in range(len(parts) - 1, 0, -1):
                r = self.p.resolve(self.f.module, ".".join(parts[:k]))
                if r is not None:
                    break
        return r is not None and r[0] in ("module", "const", "frozen", "class")

    # ---------------------------------------------------------- expressions

    def element(self, v, src):
        return Val(v.deep, v.deep)

    def ev(self, e, stmt=False):
        if e is None:
            return FRESH
        if isinstance(e, ast.Name):
            return self.env.get(e.id, FRESH)
        if isinstance(e, ast.Constant):
            return FRESH
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value)
            if e.attr in ALIAS_ATTR and e.attr not in ("geometry",):
                return Val(b.own, b.deep, b.kind)
            if e.attr == "geometry":
                return Val(b.own if b.kind in FRAMES else b.deep, b.deep)
            if e.attr in self.eff.plain:
                return FRESH
            return Val(b.deep, b.deep)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            self.ev(e.slice)
            if b.keys is not None and isinstance(e.slice, ast.Constant) and e.slice.value in b.keys:
                return b.keys[e.slice.value]
            if isinstance(e.slice, ast.Slice):
                if b.kind in ("ndarray", "NDArray", "Series"):
                    return b
                return Val(E, b.deep, b.kind)
            if b.kind in FRAMES and not (isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str)):
                return FRESH
            # rows selected from a frame are a copy
            if isinstance(e.value, ast.Attribute) and e.value.attr in ("loc", "iloc", "at", "iat"):
                return FRESH
            if isinstance(e.slice, (ast.Compare, ast.BinOp, ast.UnaryOp)) and not (
                isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.operand, ast.Constant)
            ) and not isinstance(e.slice, ast.BinOp):
                return FRESH          # boolean selection
            if isinstance(e.slice, ast.List):
                return FRESH
            return Val(b.deep, b.deep)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            vs = []
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x)
                vs.append(v.deep if isinstance(x, ast.Starred) else v.own | v.deep)
            d = E.union(*vs)
            if len(set(vs)) > 1:
                d = fuzzy(d)
            return Val(E, d, "list" if isinstance(e, ast.List) else None)
        if isinstance(e, ast.Dict):
            d, ks = E, {}
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                d = d | v.own | v.deep
                if isinstance(k, ast.Constant):
                    ks[k.value] = v
                else:
                    ks = None
                    break
            if ks is None:
                for x in e.values:
                    v = self.ev(x)
                    d = d | v.own | v.deep
            return Val(E, fuzzy(d), "dict", ks)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body).join(self.ev(e.orelse))
        if isinstance(e, ast.BoolOp):
            v = self.ev(e.values[0])
            for x in e.values[1:]:
                v = v.join(self.ev(x))
            return v
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v, None)
            return v
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            save = dict(self.env)
            for g in e.generators:
                it = self.ev(g.iter)
                self.assign(g.target, self.element(it, g.iter), None)
                for c in g.ifs:
                    self.ev(c)
            if isinstance(e, ast.DictComp):
                self.ev(e.key)
                v = self.ev(e.value)
            else:
                v = self.ev(e.elt)
            self.env = save
            return Val(E, v.own | v.deep, "list" if isinstance(e, ast.ListComp) else None)
        if isinstance(e, ast.Lambda):
            self.nested(e)
            return FRESH
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            # list + list shares its elements; arithmetic does not
            if a.kind in ("list", "List") or b.kind in ("list", "List"):
                return Val(E, a.deep | b.deep, "list")
            return FRESH
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            if e.value is not None:
                v = self.ev(e.value)
                self.s.returns_deep |= v.own | v.deep
            return FRESH
        if isinstance(e, ast.Call):
            return self.call(e, stmt)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return FRESH

    def call(self, e, stmt):
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        for k in e.keywords:
            if k.arg == "out":
                self.mutate(kws["out"], e, "written through out=")
        d = dotted(e.func)
        name = d
        r = None
        if d is not None and d.split(".")[0] not in self.env:
            r = self.p.resolve(self.f.module, d)
            if r is not None and r[0] == "ext":
                name = r[1]
        if r is not None and r[0] == "func" and (r[1].cls is None or True):
            g = r[1]
            a2 = args
            return self.apply(g, a2, kws, e)
        if r is not None and r[0] == "class":
            own = E
            for v in args + list(kws.values()):
                own = own | v.own | v.deep
            return Val(E, fuzzy(own))
        if isinstance(e.func, ast.Attribute) and (r is None or r[0] not in ("ext",)):
            return self.method(e, args, kws, stmt)
        if name in FIRST_ARG and args:
            self.mutate(args[0], e, f"{name} on it")
            return FRESH
        if name in ("getattr",) and args:
            return Val(args[0].deep, args[0].deep)
        if name in ALIAS and args:
            return args[0]
        if name in SHALLOW:
            dd = E
            for v in args:
                dd = dd | v.deep
            if name in ("next", "max", "min"):
                return Val(dd, dd)
            return Val(E, dd, "list" if name in ("list", "sorted") else None)
        if not isinstance(e.func, (ast.Name, ast.Attribute)):
            self.ev(e.func)
            return self.decorated(e, args, kws)
        return FRESH

    def decorated(self, e, args, kws):
        """d(f)(x): f applied to x, for certain when d hands its arguments on as they are."""
        out = FRESH
        inner = [x for x in ast.walk(e.func) if isinstance(x, (ast.Name, ast.Attribute)) and (dotted(x) or "").split(".")[-1].startswith("undecorated_")]
        for x in inner:
            r = self.p.resolve(self.f.module, dotted(x))
            if r is None or r[0] != "func":
                continue
            sure = all(self.forwards(y) for y in ast.walk(e.func) if isinstance(y, ast.Call))
            a, k = args, kws
            if not sure:
                a = [Val(fuzzy(v.own), fuzzy(v.deep), v.kind) for v in args]
                k = {n: Val(fuzzy(v.own), fuzzy(v.deep), v.kind) for n, v in kws.items()}
            out = out.join(self.apply(r[1], a, k, e))
        return out

    def forwards(self, c):
        d = dotted(c.func)
        r = self.p.resolve(self.f.module, d) if d else None
        if r is None or r[0] != "func":
            return isinstance(c.func, ast.Call)
        node = r[1].node
        passed = {x.arg for x in node.args.args}
        for fn in ast.walk(node):
            if not isinstance(fn, ast.FunctionDef) or fn is node:
                continue
            names = {x.arg for x in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
            names |= {x.arg for x in (fn.args.vararg, fn.args.kwarg) if x is not None}
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in names:
                    return False
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in passed:
                    vs = [y.value if isinstance(y, ast.Starred) else y for y in x.args] + [y.value for y in x.keywords]
                    if not all(isinstance(y, ast.Name) and y.id in names for y in vs):
                        return False
            passed |= names
        return True

    def method(self, e, args, kws, stmt):
        recv = self.ev(e.func.value)
        n = e.func.attr
        for k in e.keywords:
            if k.arg == "inplace" and not (isinstance(k.value, ast.Constant) and not k.value.value):
                self.mutate(recv, e, f".{n}(inplace=...)")
        known = self.eff.methods.get(n)
        sup = isinstance(e.func.value, ast.Call) and dotted(e.func.value.func) == "super"
        if sup:
            recv = self.env.get("self", FRESH)
        if known and not (n in STATEMENT_MUTATORS | VALUE_MUTATORS):
            out = FRESH
            for g in known:
                out = out.join(self.apply(g, [recv] + args, kws, e))
            return out
        if (n in STATEMENT_MUTATORS and stmt) or n in VALUE_MUTATORS:
            self.mutate(recv, e, f".{n}() is called on {ast.unparse(e.func.value)[:60]}")
            if isinstance(e.func.value, ast.Name):
                o = self.env.get(e.func.value.id)
                if o is not None:
                    d = o.deep
                    for v in args:
                        d = d | fuzzy(v.own | v.deep)
                    self.env[e.func.value.id] = Val(o.own, d, o.kind)
        if n in ("copy", "model_copy", "__copy__"):
            deep = any(k.arg == "deep" and isinstance(k.value, ast.Constant) and k.value.value for k in e.keywords)
            return FRESH if deep or recv.kind in FRAMES else Val(E, recv.deep, recv.kind)
        if n in DEEP_METHODS:
            return Val(recv.deep, recv.deep)
        if n in ALIAS_METHODS:
            return recv
        return FRESH

    def apply(self, g, args, kws, e):
        s = self.eff.sum.get(g.qual)
        if s is None:
            return FRESH
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if g.cls is not None and names and len(args) == len(names) - 1 and names[0] in ("self", "cls") and not kws:
            pass
        bound = dict(zip(names, args))
        bound.update({k: v for k, v in kws.items() if k is not None})
        own = deep = E
        for n, v in bound.items():
            if n in s.mutates:
                self.mutate(v, e, f"{g.name}() modifies it ({s.mutates[n][1]})")
            elif "?" + n in s.mutates:
                self.mutate(Val(fuzzy(v.own)), e, f"{g.name}() may modify it")
            if n in s.returns_own:
                own, deep = own | v.own, deep | v.deep
            elif n in s.returns_deep:
                deep = deep | v.deep
            elif "?" + n in s.returns_own:
                own, deep = own | fuzzy(v.own), deep | fuzzy(v.deep)
            elif "?" + n in s.returns_deep:
                deep = deep | fuzzy(v.deep)
        if "<global>" in s.mutates:
            self.s.mutates.setdefault("<global>", (getattr(e, "lineno", 0), f"{g.name}(): {s.mutates['<global>'][1]}"))
        return Val(own, deep)


def check_effects(ctx, prop, Spec, Result):
    if prop is not None and prop != "C18":
        return []
    import os
    from .check import HERE
    from .nodes import raw
    eff = Effects(ctx.p)
    out = []
    with open(os.path.join(HERE, "specs", "public.txt"), encoding="utf-8") as f:
        names = f.read().split()
    for q in names:
        r = ctx.find(q)
        if r is None:
            continue
        f = r[0]
        s = eff.sum.get(f.qual)
        if s is None:
            continue
        sp = Spec(["C18"], q + ".(effects)", None)
        res = Result(sp, q + ".(effects)", "proved", "", f.loc())
        res.rule = "alias and effect analysis: no store reaches a parameter or shared state"
        res.steps = 0
        if s.mutates:
            par, (line, what) = max(s.mutates.items(), key=lambda kv: (not kv[0].startswith("?"), kv[0]))
            res.status = "undecided" if par.startswith("?") else "violated"
            res.loc = f"{f.module.relpath}:{line}"
            res.detail = (f"argument {par}: {what}" if par != "<global>" else what, raw("missing"), raw("missing"))
        out.append(res)
    return out
