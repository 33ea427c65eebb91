"""
Random interpretation of value graphs.

Two graphs whose normal forms differ may still denote the same value.  Here both are given a
meaning under the same random interpretation: arithmetic, conditions, lists and dictionaries
mean what they mean in Python, every other function symbol is a random function of its
argument values (the same one on both sides), inputs are random, and the conditions of the
case under comparison hold.  Graphs that differ in some interpretation denote different
values unless an identity of an uninterpreted function was overlooked (the judge only asks
about functions the reference uses itself); graphs that agree in all of them are left alone.
Nothing of the analysed program is executed: only terms are evaluated.
"""
import hashlib
import math
import random
import time
from fractions import Fraction as Fr

from . import nodes as V
from .nodes import NONE

VEC = V.VEC_ATTRS
SAMEVEC = {"skyfield.api.wgs84.geographic_position_of", "skyfield.api.wgs84.subpoint_of", ".utc_datetime"}
COLUMNS = {".shift"}
HOLDS = {"pandas.Series": "data", "geopandas.GeoSeries": "data", "numpy.array": "object", "numpy.asarray": "a"}


class Unsupported(Exception):
    pass


class Unusable(Exception):
    """This interpretation leaves the domain (root of a negative number, ...)."""


class Outside(Unusable):
    """Well outside the domain of an inverse sine or cosine."""


class Tok:
    __slots__ = ("kind", "parts", "digest")

    def __init__(self, kind, parts, digest):
        self.kind, self.parts, self.digest = kind, parts, digest

    def __eq__(self, o):
        return isinstance(o, Tok) and o.digest == self.digest

    def __hash__(self):
        return hash(self.digest)

    def __repr__(self):
        return f"<{self.kind} {' '.join(str(p)[:30] for p in self.parts)}>"


class Dct:
    __slots__ = ("items", "base")

    def __init__(self, items, base=None):
        self.items, self.base = items, base


def fl(x):
    if x != x or x in (math.inf, -math.inf):
        return str(x)
    x = round(x, 6)
    return "%.7g" % (0.0 if x == 0 else x)


def dig(v):
    if v is None:
        return "N"
    if v is True or v is False:
        return "B1" if v else "B0"
    if isinstance(v, (int, float)):
        return "n" + fl(float(v))
    if isinstance(v, str):
        return "s" + v
    if isinstance(v, tuple):
        return "[" + ",".join(dig(x) for x in v) + "]"
    if isinstance(v, Tok):
        return v.digest
    if isinstance(v, Dct):
        return "{" + ",".join(sorted(dig(k) + ":" + dig(x) for k, x in v.items)) + "}" + (dig(v.base) if v.base is not None else "")
    raise Unsupported(type(v).__name__)


def h(*xs):
    return hashlib.blake2b("|".join(xs).encode(), digest_size=12).hexdigest()


def tok(kind, *parts):
    return Tok(kind, parts, "t" + h(kind, *[p if isinstance(p, str) and i == 0 and kind in ("attr", "call") else dig(p) for i, p in enumerate(parts)]))


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, bool) != isinstance(b, bool) and (a, b) not in ((0, False), (1, True), (False, 0), (True, 1)):
            pass
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Dct) and isinstance(b, Dct):
        da, db = {dig(k): x for k, x in a.items}, {dig(k): x for k, x in b.items}
        return set(da) == set(db) and all(same(da[k], db[k]) for k in da) and (a.base is None) == (b.base is None) and (
            a.base is None or same(a.base, b.base))
    return dig(a) == dig(b)


def scatter(f, *xs):
    """Element-wise application with broadcasting of scalars."""
    n = [len(x) for x in xs if isinstance(x, tuple)]
    if not n:
        return f(*xs)
    if len(set(n)) != 1:
        raise Unusable("shapes")
    return tuple(scatter(f, *[x[i] if isinstance(x, tuple) else x for x in xs]) for i in range(n[0]))


def step(f):
    """A step function, away from rounding at its steps."""
    def g(x):
        if isinstance(x, float) and x != round(x) and abs(x - round(x)) < 1e-9 * max(1.0, abs(x)):
            raise Unusable("step")
        return f(x)
    return g


def inside(f):
    def g(x):
        if not isinstance(x, complex) and 1 + 1e-6 < abs(x) < 1e3:
            raise Outside("domain")
        return f(x)
    return g


def real(f):
    def g(*xs):
        try:
            r = f(*xs)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Unusable("domain")
        if isinstance(r, complex) or r != r or abs(r) > 1e14:
            raise Unusable("domain")
        return r
    return g


ELEM = {
    "abs": abs, "floor": step(math.floor), "int": step(math.trunc), "numpy.ceil": step(math.ceil), "numpy.sin": math.sin,
    "numpy.cos": math.cos, "numpy.tan": math.tan, "numpy.arcsin": inside(math.asin), "numpy.arccos": inside(math.acos),
    "numpy.arctan": math.atan, "numpy.log": math.log, "numpy.exp": math.exp, "float": float,
    "numpy.sign": lambda x: (x > 0) - (x < 0), "numpy.log10": math.log10,
}
ELEM2 = {"numpy.arctan2": math.atan2, "pow": pow, "mod": lambda a, b: a - b * step(math.floor)(a / b), "numpy.hypot": math.hypot}
LISTFN = {"sum", "numpy.sum", "numpy.mean", "numpy.sort", "sorted", "builtins.sorted", "numpy.argsort", "builtins.reversed", "numpy.diff",
          "numpy.cumsum", "any", "all", "numpy.any", "numpy.all"}
UNITS = (
    (1.5e6, ("altitude", "distance", "width", "axis", "along_track", "cross_track", "height")),
    (85.0, ("angle", "longitude", "latitude", "inclination", "ascension", "field_of", "anomaly", "degrees")),
)
BOOLISH = {"lt0", "eq0", "eq", "not", "and", "or", "truth", "any", "in", "throws"}


class Interp:
    def __init__(self, ev, seed):
        self.ev = ev
        self.rng = random.Random(seed)
        self.salt = str(seed)
        self.over = {}
        self.lens = {}
        self.fixed = {}
        self.memo = {}
        self.exact, self.common = frozenset(), frozenset()
        self.steps = 0
        self.signed = self.rng.random() < 0.4
        self.scale = self.rng.choice((1.0, 1.0, 3.0, 20.0, 400.0))
        self.units = self.rng.random() < 0.5
        self.coarse = self.rng.random() < 0.25      # equal values are likely

    # ------------------------------------------------------------ coercions

    def bits(self, d, what):
        return int(h(self.salt, what, d)[:12], 16) / float(1 << 48)

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Tok):
            if v.kind == "raise":
                raise Unusable("raise")
            if v.digest in self.fixed:
                return self.fixed[v.digest]
            u = self.bits(v.digest, "num")
            if self.coarse:
                u = (0.25, 0.5, 0.75)[int(u * 3)]
            x = (0.05 + 0.93 * u) * (self.unit(v) or self.scale)
            if self.signed and self.bits(v.digest, "sign") < 0.35:
                x = -x
            return x
        if isinstance(v, tuple):
            return tuple(self.num(x) for x in v)
        raise Unusable("number")

    def unit(self, v):
        """The size such an input usually has."""
        if not self.units or v.kind not in ("sym", "attr") or not isinstance(v.parts[0], str):
            return None
        for size, names in UNITS:
            if any(x in v.parts[0] for x in names):
                return size
        return None

    def typed(self, v, other):
        """An unknown as a value of the type it is compared with."""
        if isinstance(v, Tok) and v.kind != "raise":
            if isinstance(other, bool):
                return self.truth(v)
            if isinstance(other, (int, float)):
                return self.num(v)
        return v

    def truth(self, v):
        if isinstance(v, Tok):
            if v.kind == "raise":
                raise Unusable("raise")
            return self.bits(v.digest, "bool") < 0.5
        if isinstance(v, Dct):
            return bool(v.items) or v.base is not None
        return bool(v)

    def len(self, v):
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, Dct):
            if v.base is None:
                return len(v.items)
            return self.len(v.base)
        if isinstance(v, Tok):
            r = self.lens.get(v.digest)
            if r is not None:
                return r
            if v.kind == "attr" and v.parts[0] in VEC:
                return self.len(v.parts[1])
            if v.kind == "call" and v.parts[0] in SAMEVEC and len(v.parts) == 2:
                return self.len(v.parts[1][1])
            i = self.inner(v)
            if i is not None:
                return self.len(i)
            r = (0, 1, 2, 2, 3, 3, 4)[int(self.bits(v.digest, "len") * 7)]
            if v.kind == "attr" and v.parts[0] == "tle":
                r *= 2  # two lines per element set
            return r
        raise Unusable("len")

    def inner(self, v):
        if v.kind == "call" and v.parts[0] in HOLDS:
            for p in v.parts[1:]:
                if p[0] == HOLDS[v.parts[0]] and isinstance(p[1], (tuple, Tok)):
                    return p[1]
        return None

    def items(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, Dct) and v.base is None:
            return tuple(k for k, _ in v.items)
        if isinstance(v, (Tok, Dct)):
            return tuple(self.get(v, i) for i in range(self.len(v)))
        raise Unusable("iterate")

    def get(self, b, i):
        if isinstance(b, Dct):
            for k, x in b.items:
                if same(k, i):
                    return x
            return self.get(b.base, i) if b.base is not None else tok("nokey", b, i)
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, float) and abs(i - round(i)) < 1e-9:
            i = round(i)
        if isinstance(b, (tuple, str)):
            if isinstance(i, int):
                return b[i] if -len(b) <= i < len(b) else tok("oob", b, i)
            if isinstance(i, tuple):
                if len(i) == len(b) and all(isinstance(x, bool) for x in i):
                    return tuple(x for x, k in zip(b, i) if k)
                if all(isinstance(x, int) and -len(b) <= x < len(b) for x in i):
                    return tuple(b[x] for x in i)
            return tok("idx", b, i)
        if isinstance(b, Tok):
            if b.kind == "raise":
                raise Unusable("raise")
            if isinstance(i, int):
                if i < 0:
                    n = self.len(b)
                    i = i + n if n + i >= 0 else i
                x = self.inner(b)
                if x is not None:
                    return self.get(x, i)
            return tok("idx", b, i)
        if isinstance(b, (int, float)):
            return b
        if b is None:
            raise Unusable("index")
        raise Unusable("index")

    def spell(self, a, b):
        """The two values with vectors on one side only spelt out on the other as well."""
        if isinstance(a, tuple) and isinstance(b, Tok) and b.kind != "raise":
            b = self.items(b)
        if isinstance(b, tuple) and isinstance(a, Tok) and a.kind != "raise":
            a = self.items(a)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            xs = [self.spell(x, y) for x, y in zip(a, b)]
            return tuple(x for x, _ in xs), tuple(y for _, y in xs)
        if isinstance(a, Dct) and isinstance(b, Dct) and a.base is None and b.base is None:
            da, db = {dig(k): x for k, x in a.items}, {dig(k): x for k, x in b.items}
            if set(da) == set(db):
                xs = {k: self.spell(da[k], db[k]) for k in da}
                return Dct([(k, xs[dig(k)][0]) for k, _ in a.items]), Dct([(k, xs[dig(k)][1]) for k, _ in b.items])
        return a, b

    def cut(self, b, lo, hi, st):
        n = self.len(b)
        xs = self.items(b)
        return xs[slice(*[None if x is None else int(round(self.num(x))) for x in (lo, hi, st)])]

    # ------------------------------------------------------------ terms

    def ev_(self, n, env=()):
        if n in self.over:
            return self.over[n]
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported("size")
        if n.maxbv >= 0:
            # bound values are part of the key
            k = (n, tuple(dig(x) for x in env[-(n.maxbv + 1):]))
        else:
            k = n
        if k in self.memo:
            return self.memo[k]
        r = self.go(n, env)
        self.memo[k] = r
        return r

    def under(self, b, vals, env):
        return self.ev_(b.a[1], env + tuple(vals))

    def count(self, n, env):
        c = self.num(self.ev_(n, env))
        if not isinstance(c, (int, float)):
            raise Unusable("count")
        return max(0, int(round(c)))

    def go(self, n, env):
        op, a = n.op, n.a
        if op == "sym":
            if a[0] == "#pi":
                return math.pi
            if n in V.INTSYMS or a[0].startswith("%i"):
                return int(self.bits(a[0], "int") * 5)
            t = self.ev.typeof(n)
            if t and t[0] == "bool":
                return self.bits(a[0], "bool") < 0.5
            if t and t[0] == "int":
                return 1 + int(self.bits(a[0], "int") * 24)
            return tok("sym", a[0])
        if op == "bv":
            return env[-1 - a[0]]
        if op == "const":
            if a[0] == "float":
                return float(a[1])
            if a[0] in ("bool", "none", "str"):
                return a[1]
            return tok("const", str(a[0]), str(a[1]))
        if op == "cnum":
            return a[0]
        if op == "poly":
            return self.poly(n, lambda x: self.num(self.ev_(x, env)))
        if op == "lt0":
            return scatter(lambda x: x < -1e-12, self.num(self.ev_(a[0], env)))
        if op == "eq0":
            return scatter(lambda x: abs(x) < 1e-9, self.num(self.ev_(a[0], env)))
        if op == "eq":
            l, r = self.ev_(a[0], env), self.ev_(a[1], env)
            l, r = self.typed(l, r), self.typed(r, l)
            if not same(l, r) and any(x.op == "call" and x.a[0] in COLUMNS for x in a):
                return self.truth(tok("eqs", *sorted((l, r), key=dig)))  # element by element
            return same(l, r)
        if op == "truth":
            return self.truth(self.ev_(a[0], env))
        if op == "not":
            return scatter(lambda x: not self.truth(x), self.ev_(a[0], env))
        if op in ("and", "or"):
            vs = []
            for x in a[0]:
                v = self.ev_(x, env)
                vs.append(v if isinstance(v, tuple) else self.truth(v))
                if vs[-1] is (op == "or"):
                    return op == "or"
            f = all if op == "and" else any
            return scatter(lambda *xs: f(self.truth(x) for x in xs), *vs)
        if op == "ite":
            c = self.ev_(a[0], env)
            if isinstance(c, tuple):
                return scatter(lambda q, x, y: x if q else y, c, self.ev_(a[1], env), self.ev_(a[2], env))
            return self.ev_(a[1] if self.truth(c) else a[2], env)
        if op in ("seq", "tup"):
            return tuple(self.ev_(x, env) for x in a[0])
        if op in ("lst", "arr"):
            return self.items(self.ev_(a[0], env))
        if op == "cat":
            out = ()
            for x in a[0]:
                out += self.items(self.ev_(x, env))
            return out
        if op == "cm":
            out = ()
            for i in range(self.count(a[0], env)):
                out += self.items(self.under(a[1], (i,), env))
            return out
        if op == "any":
            return any(self.truth(self.under(a[1], (i,), env)) for i in range(self.count(a[0], env)))
        if op == "range":
            lo, hi, st = (self.num(self.ev_(x, env)) for x in a)
            if not all(isinstance(x, (int, float)) for x in (lo, hi, st)) or abs(hi - lo) > 400 or int(st) == 0:
                raise Unusable("range")
            return tuple(range(int(round(lo)), int(round(hi)), int(round(st))))
        if op == "enumerate":
            s = int(self.num(self.ev_(a[1], env)))
            return tuple((s + i, x) for i, x in enumerate(self.items(self.ev_(a[0], env))))
        if op == "zip":
            return tuple(zip(*[self.items(self.ev_(x, env)) for x in a[0]]))
        if op == "fold":
            st = tuple(self.ev_(x, env) for x in a[1])
            for i in range(self.count(a[0], env)):
                st = self.under(a[2], (i,) + st, env)
                if not isinstance(st, tuple):
                    raise Unusable("fold")
            return st
        if op == "while":
            st = tuple(self.ev_(x, env) for x in a[0])
            for i in range(60):
                if not self.truth(self.under(a[1], st, env)):
                    return st
                st = self.under(a[2], st, env)
            raise Unusable("while")
        if op == "proj":
            v = self.ev_(a[0], env)
            return v[a[1]] if isinstance(v, tuple) else tok("idx", v, a[1])
        if op == "index":
            if a[1].op == "slice":
                lo, hi, st = (self.ev_(x, env) for x in a[1].a)
                return self.cut(self.ev_(a[0], env), lo, hi, st)
            return self.at(a[0], self.ev_(a[1], env), env)
        if op == "slice":
            return tok("slice", *[self.ev_(x, env) for x in a])
        if op == "attr":
            b = self.ev_(a[0], env)
            if isinstance(b, Dct):
                for k, x in b.items:
                    if k == a[1]:
                        return x
                b = b.base if b.base is not None else b
            if isinstance(b, Tok) and b.kind == "new":
                for k, x in b.parts[1]:
                    if k == a[1]:
                        return x
            r = tok("attr", a[1], b)
            t = self.ev.typeof(n)
            if t and t[0] == "int":
                return 1 + int(self.bits(r.digest, "int") * 24)
            return r
        if op == "dict":
            return Dct([(self.ev_(k, env), self.ev_(x, env)) for k, x in a[0]])
        if op == "update":
            return self.put(self.ev_(a[0], env), [(self.ev_(k, env), self.ev_(x, env)) for k, x in a[1]])
        if op == "setitem":
            return self.put(self.ev_(a[0], env), [(self.ev_(a[1], env), self.ev_(a[2], env))])
        if op == "concat":
            return self.text([self.ev_(x, env) for x in a[0]])
        if op == "in":
            l, r = self.ev_(a[0], env), self.ev_(a[1], env)
            if isinstance(r, tuple):
                return any(same(l, x) for x in r)
            return tok("in", l, r)
        if op == "new":
            return tok("new", a[0], tuple((k, self.ev_(x, env)) for k, x in a[1]))
        if op == "raise":
            return tok("raise", *[str(x) for x in a])
        if op == "call":
            return self.call(n, env)
        if op == "bind":
            vals = [tok("arg", str(n.maxbv), len(env) + j) for j in range(a[0])]
            return tok("lam", self.under(n, vals, env))
        if op == "opaque":
            raise Unsupported("opaque")
        return tok("op", op, self.data(a, env))

    def data(self, x, env):
        if isinstance(x, V.N):
            return self.ev_(x, env)
        if isinstance(x, tuple):
            return tuple(self.data(y, env) for y in x)
        return x if x is None or isinstance(x, (bool, int, float, str)) else str(x)

    def text(self, xs):
        out = []
        for x in xs:
            if isinstance(x, str):
                if out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
            else:
                out.append(x)
        return out[0] if len(out) == 1 else tok("text", *out)

    def put(self, b, kvs):
        if isinstance(b, Dct):
            items = list(b.items)
        elif isinstance(b, tuple):
            b = list(b)
            for k, v in kvs:
                if isinstance(k, (int, float)) and -len(b) <= k < len(b) and k == int(k):
                    b[int(k)] = v
                else:
                    raise Unusable("store outside the list")
            return tuple(b)
        else:
            if any(not isinstance(k, str) for k, _ in kvs):
                raise Unusable("element of a vector")
            items, b = [], Dct([], b)
        for k, v in kvs:
            items = [(k2, v2) for k2, v2 in items if not same(k, k2)] + [(k, v)]
        return Dct(items, b.base)

    def poly(self, n, f):
        out = 0
        for m, c in n.a[0]:
            t = float(c) if c.denominator != 1 else int(c)
            for x, e in m:
                v = f(x)
                if e == 1:
                    p = v
                else:
                    ex = int(e) if e.denominator == 1 else float(e)
                    p = scatter(real(lambda z: z ** ex), v)
                t = scatter(lambda p1, p2: p1 * p2, t, p)
            out = scatter(lambda p1, p2: p1 + p2, out, t)
        return out

    def scalar(self, n):
        if n.op in ("const", "cnum", "bv"):
            return True
        t = self.ev.typeof(n)
        return bool(t and t[0] in ("float", "int", "bool", "num"))

    def at(self, n, i, env):
        """n[i], through element-wise operations on vectors that are not spelt out."""
        if n in self.over:
            return self.get(self.over[n], i)
        if isinstance(i, (int, float)):
            if n.op == "poly":
                return self.poly(n, lambda x: self.num(self.ev_(x, env) if self.scalar(x) else self.at(x, i, env)))
            if n.op == "lt0":
                return self.num(self.at(n.a[0], i, env)) < -1e-12
            if n.op == "eq0":
                return abs(self.num(self.at(n.a[0], i, env))) < 1e-9
            if n.op == "not":
                return not self.truth(self.at(n.a[0], i, env))
            if n.op in ("and", "or"):
                f = all if n.op == "and" else any
                return f(self.truth(self.at(x, i, env)) for x in n.a[0])
            if n.op == "call" and n.a[0] in ELEM:
                return real(ELEM[n.a[0]])(self.num(self.at(n.a[1][0][1], i, env)))
            if n.op == "call" and n.a[0] in ELEM2:
                return real(ELEM2[n.a[0]])(*[self.num(self.at(x, i, env)) for _, x in n.a[1]])
        return self.get(self.ev_(n, env), i)

    def call(self, n, env):
        name, args = n.a
        d = dict(args)
        if name in ("len", "vlen"):
            return self.len(self.ev_(d["0"], env))
        if name in ELEM and len(d) == 1:
            return scatter(real(ELEM[name]), self.num(self.ev_(args[0][1], env)))
        if name in ELEM2 and len(d) == 2:
            return scatter(real(ELEM2[name]), *[self.num(self.ev_(x, env)) for _, x in args])
        v = {k: self.ev_(x, env) for k, x in args}
        r = self.known(name, v)
        if r is not None:
            return r
        if name == "tatc.schemas.orbit.TwoLineElements.get_tle_count" and set(v) == {"self"}:
            # what the reference says it is; the code's own definition is compared with that separately
            return self.len(tok("attr", "tle", v["self"])) // 2
        if name in self.exact and n not in self.common:
            raise Unusable("algebra of " + name)
        return tok("call", name, *sorted(v.items()))

    def nums(self, v):
        xs = tuple(self.num(x) for x in self.items(v))
        if any(isinstance(x, tuple) for x in xs):
            raise Unusable("matrix")
        return xs

    def known(self, name, v):
        only = v.get("a", v.get("0"))
        if name in ("min", "max") and all(k.isdigit() for k in v):
            f = min if name == "min" else max
            return scatter(f, *[self.num(x) for x in v.values()])
        if name == "numpy.round" and isinstance(only, (int, float, Tok, tuple)):
            dec = v.get("decimals", v.get("1", 0))
            if isinstance(dec, int):
                return scatter(lambda x: round(x, dec), self.num(only))
        if len(v) == 1 and name in LISTFN and name in self.exact and isinstance(only, Tok) and only.kind != "raise":
            only = self.items(only)
        if isinstance(only, tuple) and len(v) == 1:
            if name in ("sum", "numpy.sum"):
                return sum(self.nums(only))
            if name in ("minof", "maxof", "numpy.min", "numpy.max", "numpy.mean", "numpy.argmin", "numpy.argmax") and not only:
                raise Unusable("empty")
            if name in ("minof", "numpy.min"):
                return min(self.nums(only))
            if name in ("maxof", "numpy.max"):
                return max(self.nums(only))
            if name == "numpy.mean":
                return sum(self.nums(only)) / len(only)
            if name in ("any", "numpy.any"):
                return any(self.truth(x) for x in only)
            if name in ("all", "numpy.all"):
                return all(self.truth(x) for x in only)
            if name == "numpy.argmin":
                x = self.nums(only)
                return x.index(min(x))
            if name == "numpy.argmax":
                x = self.nums(only)
                return x.index(max(x))
            if name in ("numpy.sort", "sorted", "builtins.sorted"):
                return tuple(sorted(self.nums(only)))
            if name == "numpy.argsort":
                x = self.nums(only)
                return tuple(sorted(range(len(x)), key=lambda i: x[i]))
            if name == "numpy.nonzero":
                return (tuple(i for i, x in enumerate(only) if self.truth(x)),)
            if name == "builtins.reversed":
                return only[::-1]
            if name == "numpy.diff":
                x = self.nums(only)
                return tuple(q - p for p, q in zip(x, x[1:]))
            if name == "numpy.cumsum":
                x = self.nums(only)
                return tuple(sum(x[:i + 1]) for i in range(len(x)))
            if name in ("numpy.size", "numpy.shape"):
                return len(only) if name == "numpy.size" else (len(only),)
        if name in ("numpy.matmul", "numpy.dot", "numpy.cross") and len(v) == 2:
            x, y = v.values()
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                x, y = self.nums(x), self.nums(y)
                if name != "numpy.cross":
                    return sum(p * q for p, q in zip(x, y))
                if len(x) == 3:
                    return (x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0])
        if name == "numpy.concatenate" and set(v) == {"arrays"} and isinstance(v["arrays"], tuple):
            out = ()
            for x in v["arrays"]:
                out += self.items(x)
            return out
        if name == "numpy.insert" and set(v) == {"arr", "obj", "values"} and v["obj"] == 0 and isinstance(v["values"], (int, float)):
            return (v["values"],) + self.items(v["arr"])
        if name == "numpy.linspace" and {"start", "stop", "num"} <= set(v) <= {"start", "stop", "num", "endpoint"}:
            s, e, k = (self.num(v[x]) for x in ("start", "stop", "num"))
            k = int(round(k))
            if any(isinstance(x, tuple) for x in (s, e)) or not 0 <= k < 60:
                return None
            end = v.get("endpoint", True)
            q = max(1, (k - 1) if self.truth(end) else k)
            return tuple(s + (e - s) * i / q for i in range(k))
        return None

    # ------------------------------------------------------------ hypotheses

    def assume(self, lits, conds=()):
        """Choose an interpretation in which the literals hold; False if this one has none."""
        checks, bounds = [], {}
        for a, v in lits.items():
            if a.op == "eq":
                x, y = a.a
                if x.op in ("const", "enum"):
                    x, y = y, x
                if y.op in ("const", "enum"):
                    if v:
                        self.over[x] = self.ev_(y)
                    checks.append((a, v))
                    continue
            if a.op == "truth":
                self.over[a] = v
                if a.a[0].op in ("sym", "attr", "call", "index"):
                    t = self.ev.typeof(a.a[0])
                    if t and t[0] == "bool":
                        self.over[a.a[0]] = v
                continue
            if a.op in ("lt0", "eq0"):
                l = single(a.a[0])
                if l is not None:
                    bounds.setdefault(l[0], []).append((a.op, l[1], l[2], v))
                checks.append((a, v))
                continue
            if a.op in ("any", "in", "and", "or", "eq"):
                checks.append((a, v))
                continue
            self.over[a] = v
        self.vary(conds, bounds)
        for atom, cs in bounds.items():
            self.pick(atom, cs)
        self.tie(conds)
        self.memo.clear()
        for a, v in checks:
            if self.truth(self.ev_(a)) != v:
                return False
        return True

    def vary(self, conds, held):
        """Let inputs take the values the conditions single out."""
        seen = set()
        for a in conds:
            if self.rng.random() < 0.6:
                continue
            if a.op == "eq":
                x, y = a.a
                if x.op in ("const", "enum"):
                    x, y = y, x
                if y.op in ("const", "enum") and x.op in ("sym", "attr") and x not in self.over and x not in seen:
                    seen.add(x)
                    self.over[x] = self.ev_(y)
            else:
                l = single(a.a[0])
                if l is None:
                    continue
                x, c, k = l
                if x in held or x in seen or x in self.over or x.maxbv >= 0:
                    continue
                if x.op in ("sym", "attr") or x.op == "call" and x.a[0] in ("len", "vlen"):
                    seen.add(x)
                    r = -k / c
                    if r == int(r):
                        r = int(r)
                    if x.op == "call" and (r < 0 or r != int(r) or r > 12):
                        continue
                    self.pick(x, [("eq0", c, k, True)])
                elif a.op == "eq0" and x.op in ("index", "call"):
                    t = self.ev_(x)
                    if isinstance(t, Tok) and t.kind != "raise":
                        self.fixed.setdefault(t.digest, -k / c)

    def tie(self, conds):
        """Let two unknown numbers that are compared be equal."""
        for a in conds:
            if a.op != "lt0" or a.a[0].op != "poly" or a.maxbv >= 0 or self.rng.random() < 0.75:
                continue
            t = dict(a.a[0].a[0])
            k = float(t.pop((), 0))
            if len(t) != 2 or any(len(m) != 1 or m[0][1] != 1 for m in t):
                continue
            (m, c), (n, e) = t.items()
            x, y = self.ev_(m[0][0]), self.ev_(n[0][0])
            if isinstance(x, Tok) and isinstance(y, Tok) and x.digest not in self.fixed and x.kind != "raise" != y.kind:
                self.fixed[x.digest] = -(float(e) * self.num(y) + k) / float(c)

    def pick(self, atom, cs):
        lenlike = atom.op == "call" and atom.a[0] in ("len", "vlen")
        isint = lenlike or V.isint(atom)
        if lenlike:
            cand = [0, 1, 2, 3, 4, 5]
        else:
            cand = [0, 1, 2, 3, 5] if isint else [self.num(tok("pick", str(atom.id), j)) for j in range(3)]
            for op, c, k, v in cs:
                r = -k / c
                cand += [r, r - 1, r + 1] + ([] if isint else [r - 0.3, r + 0.3, r * 1.5, r * 0.5])
        self.rng.shuffle(cand)
        for x in cand:
            ok = True
            for op, c, k, v in cs:
                val = c * x + k
                t = val < -1e-12 if op == "lt0" else abs(val) < 1e-9
                ok = ok and t == v
            if ok:
                break
        else:
            return
        if isint and x == int(x):
            x = int(x)
        if lenlike:
            b = self.ev_(atom.a[1][0][1])
            if isinstance(b, Tok):
                while True:
                    if b.kind == "attr" and b.parts[0] in VEC and b.digest not in self.lens:
                        nb = b.parts[1]
                    elif b.kind == "call" and b.parts[0] in SAMEVEC and len(b.parts) == 2:
                        nb = b.parts[1][1]
                    elif self.inner(b) is not None:
                        nb = self.inner(b)
                    else:
                        break
                    if not isinstance(nb, Tok):
                        return
                    b = nb
                self.lens[b.digest] = x
        elif atom.op not in ("poly",):
            self.over[atom] = x


def single(p):
    """(x, c, k) for a linear form c*x + k in one atom."""
    if p.op == "poly":
        t = dict(p.a[0])
        k = t.pop((), Fr(0))
    else:
        t, k = {((p, Fr(1)),): Fr(1)}, Fr(0)
    if len(t) == 1:
        (m, c), = t.items()
        if len(m) == 1 and m[0][1] == 1:
            return m[0][0], float(c), float(k)
    return None


def conditions(*roots):
    out, seen, stack = [], set(), list(roots)
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("eq", "lt0", "eq0"):
            out.append(x)
        stack.extend(V.kids(x))
    out.sort(key=lambda x: x.id)
    return out


INVERSE = {"numpy.arcsin", "numpy.arccos"}


def closure(root):
    seen, stack = set(), [root]
    while stack:
        x = stack.pop()
        if x not in seen:
            seen.add(x)
            stack.extend(V.kids(x))
    return seen


def compare(ev, code, spec, lits, exact=frozenset(), common=frozenset(), want=100, limit=5):
    """('differ' | 'agree' | 'unknown', interpretations that satisfied the hypotheses)."""
    t0 = time.time()
    conds = [x for x in conditions(code, spec) if x not in lits]
    got = diff = outside = 0
    inverse = {x.a[0] for x in closure(code) if x.op == "call"} & INVERSE <= {x.a[0] for x in closure(spec) if x.op == "call"}
    for seed in range(1500):
        if time.time() - t0 > limit or got >= want:
            break
        it = Interp(ev, seed)
        it.exact, it.common = exact, common
        try:
            if not it.assume(lits, conds):
                continue
            s = it.ev_(spec)
            try:
                c = it.ev_(code)
            except Outside:
                # no number where the reference has one
                if inverse:
                    outside += 1
                    if outside >= 3:
                        return "differ", got
                continue
        except Unusable:
            continue
        except (Unsupported, RecursionError, IndexError, TypeError, KeyError):
            return "unknown", got
        try:
            c, s = it.spell(c, s)
        except Unusable:
            continue
        got += 1
        if not same(c, s):
            diff += 1
            if diff >= 2:
                return "differ", got
    if diff:
        return "differ", got
    return ("agree" if got >= 4 else "unknown"), got
