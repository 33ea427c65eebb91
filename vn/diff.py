"""
Decides whether two value graphs denote the same function, by structural descent with
case analysis on conditions.  A difference is reported only where it is *definite*: the
differing code term is fully understood (no opaque part) and speaks the vocabulary of the
reference term.  Everything else is "undecided", never an alarm.
"""
import contextlib
import copy
import itertools
import hashlib
from fractions import Fraction as Fr
from math import gcd

from . import nodes as V
from . import ext
from .nodes import TRUE, FALSE, NONE, raw, sub, num, numval, substitute, instantiate, fresh, kids, isbool


class Hard(Exception):
    """A satisfiability question that is not worth pursuing."""


class Budget(Exception):
    pass


class Mismatch:
    def __init__(self, code, spec, lits, why="", scope=(), soft=""):
        self.code, self.spec, self.lits, self.why = code, spec, dict(lits), why
        self.scope, self.soft = tuple(scope), soft
        self.refuted = None
        self.peers = ()         # other operands of the same operation that differ too


# ------------------------------------------------------------------ feasibility

def linear(p):
    t = dict(V.terms(p))
    k = t.pop((), Fr(0))
    return t, k


NONNEG = {"len", "vlen", "abs", "numpy.searchsorted", "numpy.argmin", "numpy.argmax", "numpy.linalg.norm"}


def nonneg(a):
    if a.op == "index" and a.a[1].op != "slice":
        a = a.a[0]
    return a.op == "call" and a.a[0] in NONNEG


def isint(ev, p):
    """Integer-valued, by construction or by declared type."""
    if V.isint(p):
        return True
    if p.op == "poly":
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and isint(ev, a) for a, e in m) for m, c in p.a[0])
    return p.op in ("attr", "sym") and ev.typeof(p) == ("int",)


def feasible(ev, lits):
    cons = []       # (coeffs, const, strict): sum + const < 0 or <= 0
    eqs = {}
    neqs = {}
    inst = {}
    anyt, anyf = [], []
    lens = set()

    def addlin(p, strict):
        if strict and isint(ev, p):
            p = V.add(p, num(1))
            strict = False
        t, k = linear(p)
        for m in t:
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if nonneg(a) or (a.op == "sym" and a.a[0].startswith("%i")):
                    lens.add(m)
        cons.append((t, k, strict))

    for a, v in lits.items():
        if a.op == "lt0":
            if v:
                addlin(a.a[0], True)
            else:
                addlin(V.neg(a.a[0]), False)
        elif a.op == "eq0":
            if v:
                addlin(a.a[0], False)
                addlin(V.neg(a.a[0]), False)
            else:
                neqs.setdefault("#", []).append(a.a[0])
        elif a.op == "eq":
            x, y = a.a
            for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if y.op in ("const", "enum", "cls"):
                    if v:
                        if x in eqs and eqs[x] is not y:
                            return False
                        eqs[x] = y
                    else:
                        neqs.setdefault(x, set()).add(y)
        elif a.op == "call" and a.a[0] == "isinstance":
            d = dict(a.a[1])
            inst.setdefault(d["0"], []).append((d["1"], v))
        elif a.op == "any":
            (anyt if v else anyf).append(a)
        elif a.op == "truth" and v:
            if eqs.get(a.a[0]) is NONE:
                return False
    for a, v in lits.items():
        if a.op == "truth" and v and eqs.get(a.a[0]) is NONE:
            return False
    for x, y in eqs.items():
        if y in neqs.get(x, ()):
            return False
        if y is NONE and any(v for _, v in inst.get(x, ())):
            return False
    # enumeration exhaustion
    for x, ys in neqs.items():
        if x == "#" or x in eqs:
            continue
        t = ev.typeof(x)
        if t and t[0] == "class":
            c = ev.p.classes.get(t[1])
            if c is not None and ev.p.is_enum(c):
                mem = {f"{c.qual}.{n}" for n in c.consts}
                got = set()
                for y in ys:
                    if y.op == "enum":
                        got.add(y.a[0])
                    elif y.op == "const":
                        for n in c.consts:
                            if ev.eval(c.consts[n], ev.modenv(c.module)) is y:
                                got.add(f"{c.qual}.{n}")
                if mem <= got:
                    return False
    for x, cs in inst.items():
        pos = [c for c, v in cs if v]
        negs = [c for c, v in cs if not v]
        for c1, c2 in itertools.combinations(pos, 2):
            if disjoint(ev, c1, c2):
                return False
        for c in pos:
            for d in negs:
                if subtype(ev, c, d):
                    return False
        if len(pos) == 0:
            t = ev.typeof(x)
            if t and t[0] == "union" and all(
                any(covers(ev, u, d) for d in negs) for u in t[1]
            ):
                return False
    # same-domain existential facts
    for t in anyt:
        for f in anyf:
            if t.a[0] is f.a[0]:
                i = fresh("i")
                V.INTSYMS.add(i)
                if implies(ev, instantiate(t.a[1], [i]), instantiate(f.a[1], [i])):
                    return False
        n = t.a[0]
        addlin(sub(num(1), n), False)
    for m in list(lens):
        cons.append(({m: Fr(-1)}, Fr(0), False))
    neq = neqs.get("#", [])
    floors(cons, neq)
    if not fm(cons):
        return False

    def parts(p):
        if isint(ev, p):
            a, b = V.add(p, num(1)), V.sub(num(1), p)
            return (*linear(a), False), (*linear(b), False)
        return (*linear(p), True), (*linear(V.neg(p)), True)

    def split_(i, cs):
        if i == len(neq) or i == 5:
            return True
        for c in parts(neq[i]):
            x = cs + [c]
            if fm(x) and split_(i + 1, x):
                return True
        return False

    return split_(0, cons)


def floors(cons, neq):
    """p - 1 < floor(p) <= p for every floor that occurs; tighter for n/k with n an integer."""
    seen = set()
    todo = [m for t, _, _ in cons for m in t] + [m for p in neq for m in linear(p)[0]]
    while todo:
        m = todo.pop()
        if len(m) != 1 or m[0][1] != 1 or m in seen:
            continue
        seen.add(m)
        a = m[0][0]
        if nonneg(a):
            cons.append(({m: Fr(-1)}, Fr(0), False))
        if a.op == "call" and a.a[0] == "numpy.size" and a.a[1][0][1].op == "attr" and a.a[1][0][1].a[1] == "t":
            # a track has at least one time
            cons.append(({m: Fr(-1)}, Fr(1), False))
        c = a.a[0] if a.op == "index" else a
        if c.op == "call" and c.a[0] == "numpy.searchsorted":
            d = dict(c.a[1])
            if "a" in d:
                t, k = linear(V.sub(a, V.length(d["a"])))
                cons.append((t, k, False))
                todo += list(t)
        if a.op == "call" and a.a[0] == "floor":
            p = a.a[1][0][1]
            t, k = linear(V.sub(a, p))
            cons.append((t, k, False))
            den = 1
            for c in V.terms(p).values():
                den = den * c.denominator // gcd(den, c.denominator)
            q = V.sub(V.sub(p, a), num(1))
            if V.isint(V.mul(p, num(den))):
                t, k = linear(V.add(q, num(Fr(1, den))))
                cons.append((t, k, False))
            else:
                t, k = linear(q)
                cons.append((t, k, True))
            todo += list(V.terms(p))


def implies(ev, a, b, depth=0):
    try:
        return not sat(ev, V.and_(a, V.not_(b)), {}, [0])
    except Hard:
        return False


def sat(ev, f, lits, n):
    n[0] += 1
    if n[0] > 200:
        raise Hard()
    if f is FALSE:
        return False
    if f is TRUE:
        return feasible(ev, lits)
    a = pick_atom(f)
    for v in (TRUE, FALSE):
        l2 = {**lits, a: v is TRUE}
        if not feasible(ev, l2):
            continue
        if sat(ev, substitute(f, {a: v}), l2, n):
            return True
    return False


def fm(cons):
    """Fourier-Motzkin satisfiability of linear constraints (< or <= 0)."""
    cons = [(dict(t), k, s) for t, k, s in cons]
    for _ in range(40):
        vs = {}
        for t, k, s in cons:
            for m in t:
                if t[m] != 0:
                    vs.setdefault(m, [0, 0])[0 if t[m] > 0 else 1] += 1
        for t, k, s in cons:
            if all(c == 0 for c in t.values()):
                if k > 0 or (k == 0 and s):
                    return False
        if not vs:
            return True
        m = min(vs, key=lambda x: vs[x][0] * vs[x][1])
        pos = [c for c in cons if c[0].get(m, 0) > 0]
        neg_ = [c for c in cons if c[0].get(m, 0) < 0]
        rest = [c for c in cons if c[0].get(m, 0) == 0]
        if len(pos) * len(neg_) > 200:
            return True
        for p in pos:
            for q in neg_:
                a, b = p[0][m], -q[0][m]
                t = {}
                for x, c in p[0].items():
                    t[x] = t.get(x, 0) + c * b
                for x, c in q[0].items():
                    t[x] = t.get(x, 0) + c * a
                t = {x: c for x, c in t.items() if c != 0 and x != m}
                rest.append((t, p[1] * b + q[1] * a, p[2] or q[2]))
        cons = rest
    return True


BUILTIN_TYPES = {"builtins.list", "builtins.str", "builtins.dict", "builtins.int", "builtins.float", "builtins.tuple"}


def disjoint(ev, c, d):
    if c is d:
        return False
    if c.op == "cls" and d.op == "cls":
        a, b = ev.p.classes.get(c.a[0]), ev.p.classes.get(d.a[0])
        return a is not None and b is not None and not ev.p.is_sub(a, b) and not ev.p.is_sub(b, a)
    if c.op == "extfn" and d.op == "extfn":
        a, b = c.a[0], d.a[0]
        if a in BUILTIN_TYPES or b in BUILTIN_TYPES:
            return a != b
        if a.startswith("shapely.geometry.") and b.startswith("shapely.geometry."):
            return not (("GeometryCollection" in a + b) and ("Multi" in a + b))
        if a.split(".")[0] != b.split(".")[0]:
            return not ({a.split(".")[0], b.split(".")[0]} <= {"geopandas", "pandas"})
    if {c.op, d.op} == {"cls", "extfn"}:
        return True
    return False


def subtype(ev, c, d):
    if c is d:
        return True
    if c.op == "cls" and d.op == "cls":
        a, b = ev.p.classes.get(c.a[0]), ev.p.classes.get(d.a[0])
        return a is not None and b is not None and ev.p.is_sub(a, b)
    return False


def covers(ev, u, d):
    if u[0] == "class" and d.op == "cls":
        a, b = ev.p.classes.get(u[1]), ev.p.classes.get(d.a[0])
        return a is not None and b is not None and ev.p.is_sub(a, b)
    if u[0] == "list" and d.op == "extfn":
        return d.a[0] == "builtins.list"
    if u[0] == "ext" and d.op == "extfn":
        return ext.canon(u[1]) == d.a[0]
    if u[0] == "frame" and d.op == "extfn":
        return d.a[0] in ("geopandas.GeoDataFrame",)
    return False


# ------------------------------------------------------------------ conditions

CONN = ("and", "or", "not")


def pick_atom(c):
    while c.op in CONN or c.op == "ite":
        c = c.a[0][0] if c.op in ("and", "or") else c.a[0]
    return c


def bool_atoms(b, out):
    if b.op in ("and", "or"):
        for x in b.a[0]:
            bool_atoms(x, out)
    elif b.op == "not":
        bool_atoms(b.a[0], out)
    elif b.op == "ite":
        for x in b.a:
            bool_atoms(x, out)
    elif b not in (TRUE, FALSE) and b not in out:
        out.append(b)
    return out


def assume(n, a, v):
    """n under atom a = v (plus the substitution an equality licenses)."""
    m = {a: TRUE if v else FALSE}
    if a.op == "truth" and not v:
        pass
    if v and a.op == "eq":
        x, y = a.a
        for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
            if y.op in ("const", "enum") and x.op in ("sym", "attr", "index"):
                m[x] = y
                break
    if v and a.op == "eq0":
        t, k = linear(a.a[0])
        for mm, c in t.items():
            if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op in ("sym", "attr", "call", "index"):
                at = mm[0][0]
                rest = V.sub(at, V.div(a.a[0], num(c)))
                if V.has(rest, lambda z: z is at) is None:
                    m[at] = rest
                    break
    return substitute(n, m)


# ------------------------------------------------------------------ random interpretation of arithmetic

import mpmath

MP = mpmath.mp
MP.dps = 50
UN = {
    "numpy.sin": MP.sin, "numpy.cos": MP.cos, "numpy.arcsin": MP.asin, "numpy.arctan": MP.atan,
    "numpy.log": MP.log, "numpy.exp": MP.exp, "numpy.tan": MP.tan, "numpy.log10": MP.log10,
}


def interp(n, seed, memo):
    r = memo.get(n)
    if r is None:
        r = memo[n] = _interp(n, seed, memo)
    return r


def hval(seed, *xs):
    """A pseudo-random value; its magnitude varies with the seed."""
    h = hashlib.sha256(repr((seed,) + xs).encode()).digest()
    x = MP.mpf(int.from_bytes(h[:20], "big")) / MP.mpf(2) ** 160
    x = (x + MP.mpf(1) / 7) * MP.mpf(10) ** (h[20] % SCALES[seed])
    return MP.mpc(-x if seed in SIGNED and h[21] & 1 else x)


SCALES = (1, 4, 8, 1, 1, 1, 4)
SIGNED = (3, 4, 5, 6)


class Vec(tuple):
    """Value of a literal array under the interpretation."""


def lift2(f, x, y):
    if isinstance(x, Vec) and isinstance(y, Vec):
        if len(x) != len(y):
            raise ValueError
        return Vec(lift2(f, a, b) for a, b in zip(x, y))
    if isinstance(x, Vec):
        return Vec(lift2(f, a, y) for a in x)
    if isinstance(y, Vec):
        return Vec(lift2(f, x, b) for b in y)
    return f(x, y)


def lift1(f, x):
    return Vec(lift1(f, a) for a in x) if isinstance(x, Vec) else f(x)


def mulv(x, y):
    return lift2(lambda a, b: a * b, x, y)


def addv(x, y):
    return lift2(lambda a, b: a + b, x, y)


def far(x, y):
    if isinstance(x, Vec) or isinstance(y, Vec):
        if not (isinstance(x, Vec) and isinstance(y, Vec) and len(x) == len(y)):
            return True
        return any(far(a, b) for a, b in zip(x, y))
    return abs(x - y) > MP.mpf(10) ** -20 * (abs(x) + abs(y))


def flatv(x):
    return isinstance(x, Vec) and not any(isinstance(a, Vec) for a in x)


def vec_call(n, d, seed, memo):
    """Products of literal vectors; None when not applicable."""
    name = n.a[0]
    if name == "numpy.cross" and set(d) == {"a", "b"}:
        x, y = interp(d["a"], seed, memo), interp(d["b"], seed, memo)
        if flatv(x) and flatv(y) and len(x) == len(y) == 3:
            return Vec((x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]))
    if name in ("numpy.matmul", "numpy.dot") and set(d) == {"0", "1"}:
        x, y = interp(d["0"], seed, memo), interp(d["1"], seed, memo)
        if flatv(x) and flatv(y) and len(x) == len(y):
            return sum((a * b for a, b in zip(x, y)), MP.mpc(0))
    return None


def rnd(z):
    if isinstance(z, Vec):
        return tuple(rnd(x) for x in z)
    return (MP.nstr(z.real, 20), MP.nstr(z.imag, 20) if abs(z.imag) > MP.mpf(10) ** -25 * (1 + abs(z.real)) else "0")


def mpq(c):
    return MP.mpf(c.numerator) / c.denominator


def _interp(n, seed, memo):
    if n.op == "poly":
        tot = MP.mpc(0)
        for m, c in n.a[0]:
            x = MP.mpc(mpq(c))
            for a, e in m:
                b = interp(a, seed, memo)
                q = mpq(e) if e.denominator != 1 else int(e)
                x = mulv(x, lift1(lambda z: z ** q, b))
            tot = addv(tot, x)
        return tot
    if n.op == "cnum":
        return MP.mpc(n.a[0])
    if n is V.PI:
        return MP.mpc(MP.pi)
    if n.op == "call" and n.a[0] in UN and len(n.a[1]) == 1:
        return lift1(lambda z: MP.mpc(UN[n.a[0]](z)), interp(n.a[1][0][1], seed, memo))
    if n.op == "arr" and n.a[0].op == "seq":
        return Vec(interp(x, seed, memo) for x in n.a[0].a[0])
    if n.op == "seq":
        return Vec(interp(x, seed, memo) for x in n.a[0])
    if n.op == "call" and n.a[0] in ("numpy.cross", "numpy.matmul", "numpy.dot"):
        r = vec_call(n, dict(n.a[1]), seed, memo)
        if r is not None:
            return r
    if n.op == "call" and n.a[0] in ("floor", "abs", "int", "min", "max"):
        # piecewise: samples need not reach every piece, so only what holds for any such function
        vs = [interp(v, seed, memo) for _, v in n.a[1]]
        if n.a[0] == "abs" and len(vs) == 1 and not isinstance(vs[0], Vec):
            vs = [vs[0] ** 2]
        if n.a[0] in ("floor", "int") and len(vs) == 1 and not isinstance(vs[0], Vec) and vs[0] == MP.nint(vs[0].real):
            return vs[0]
        return hval(seed, n.a[0], *sorted(rnd(v) for v in vs))
    if n.op == "call" and n.a[0] == "numpy.arctan2":
        d = dict(n.a[1])
        if set(d) == {"0", "1"}:
            return MP.mpc(MP.atan2(interp(d["0"], seed, memo).real, interp(d["1"], seed, memo).real))
    if n.op == "call" and n.a[0] == "pow":
        d = dict(n.a[1])
        return interp(d["0"], seed, memo) ** interp(d["1"], seed, memo)
    if n.op == "ite":
        # an uninterpreted function of its three parts (conditions are split elsewhere)
        return hval(seed, "ite", data(n.a, seed, memo))
    return hval(seed, n.op, data(n.a, seed, memo))


def data(x, seed, memo):
    if isinstance(x, V.N):
        return rnd(interp(x, seed, memo))
    if isinstance(x, tuple):
        return tuple(data(y, seed, memo) for y in x)
    return str(x)


EQMEMO = {}


def numerically_equal(a, b):
    k = (a, b)
    if k not in EQMEMO:
        EQMEMO[k] = _numerically_equal(a, b)
    return EQMEMO[k]


def _numerically_equal(a, b):
    try:
        for s in range(len(SCALES)):
            memo = {}
            x, y = interp(a, s, memo), interp(b, s, memo)
            if far(x, y):
                return False
        return True
    except (ZeroDivisionError, OverflowError, ValueError, RecursionError, TypeError, AttributeError):
        return False


def arith(n):
    return n.op == "poly" or (n.op == "call" and (n.a[0] in UN or n.a[0] in ("floor", "abs", "int", "min", "max", "pow", "numpy.arctan2", "sum")))


# ------------------------------------------------------------------ equivalence

def together(parts):
    """Mismatches of several operands of one operation: they may compensate each other."""
    parts = [p for p in parts if p]
    if len(parts) < 2:
        return parts[0] if parts else []
    out = []
    for i, p in enumerate(parts):
        for m in p:
            m2 = copy.copy(m)
            m2.peers = m.peers + tuple(parts[:i] + parts[i + 1:])
            out.append(m2)
    return out


class Differ:
    def __init__(self, ev, budget=6000, fast=True, depth=0):
        self.ev = ev
        self.depth = depth
        self.fast = fast
        self.steps = 0
        self.budget = budget
        self.memo = {}
        self.scopes = []

    def miss(self, a, b, lits, why="", soft=""):
        return Mismatch(a, b, lits, why, self.scopes, soft)

    @contextlib.contextmanager
    def within(self, *bodies):
        """Mismatches found inside remember the reference's enclosing body."""
        self.scopes.extend(bodies)
        try:
            yield
        finally:
            del self.scopes[-len(bodies):]

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("comparison budget")

    def eqv(self, a, b, lits=None):
        """List of mismatches (empty: equivalent)."""
        lits = lits or {}
        if a is b:
            return []
        self.tick()
        key = (a, b, frozenset(lits.items()))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        r = self._eqv(a, b, lits)
        self.memo[key] = r
        return r

    def same(self, a, b, lits):
        return not self.eqv(a, b, lits)

    def split(self, a, b, atom, lits):
        out = []
        for v in (True, False):
            l2 = {**lits, atom: v}
            if not feasible(self.ev, l2):
                continue
            out += [m for m in self.eqv(assume(a, atom, v), assume(b, atom, v), l2) if not self.refuted(m)]
            if self.settled(out) or len(out) > 6:
                break
        return out

    def refuted(self, m):
        """The case a difference was found in is impossible, once conditions and quantities
        that are written differently but equal have been identified."""
        if m.refuted is None:
            m.refuted = False
            if self.depth == 0:
                try:
                    m.refuted = impossible(self.ev, m.lits)
                except (Budget, Hard):
                    pass
        return m.refuted

    def settled(self, ms):
        """A definite difference was found: no need to look further (first phase)."""
        return self.fast and any(definite(m.code, m.spec)[0] for m in ms)

    def _eqv(self, a, b, lits):
        # case analysis on the outermost condition
        if isbool(a) and isbool(b):
            return self.eqbool(a, b, lits)
        if a.op == "ite" or b.op == "ite":
            # unify conditions first so that one split serves both sides
            if a.op == "ite" and b.op == "ite" and a.a[0] is not b.a[0]:
                m = self.pair_atoms(a.a[0], b.a[0], lits)
                if m:
                    a2 = substitute(a, m)
                    if a2 is not a:
                        return self.eqv(a2, b, lits)
            c = a.a[0] if a.op == "ite" else b.a[0]
            return self.split(a, b, pick_atom(c), lits)
        if a.op == "ret" and b.op == "ret":
            return self.eqv(a.a[0], b.a[0], lits)
        # conditions buried inside both terms are split when descent alone would fail
        if a.op != b.op or a.op == "poly":
            if arith(a) or arith(b):
                return self.eqarith(a, b, lits)
            for x, y in ((a, b), (b, a)):
                if x.op in ("lst", "arr") and y.op not in ("lst", "arr"):
                    if x.a[0] is y:
                        return []
                    z = (x.a[0], y) if x is a else (y, x.a[0])
                    return self.eqv(z[0], z[1], lits)
            c = self.inner_cond(a) or self.inner_cond(b)
            if c is not None and c not in lits:
                return self.split(a, b, c, lits)
            return [self.miss(a, b, lits)]
        r = self.descend(a, b, lits)
        if r and not self.settled(r):
            c = self.inner_cond(a) or self.inner_cond(b)
            if c is not None and c not in lits and len(lits) < 14:
                return self.split(a, b, c, lits)
        return r

    def inner_cond(self, n, depth=4):
        """A closed condition of an ite reachable without crossing a binder."""
        seen = set()
        q = [(n, 0)]
        while q:
            x, d = q.pop(0)
            if x.id in seen or d > depth:
                continue
            seen.add(x.id)
            if x.op == "ite" and x.a[0].maxbv < 0 and not isbool(x):
                return pick_atom(x.a[0])
            if x.op == "bind":
                continue
            for y in kids(x):
                q.append((y, d + 1))
        return None

    def eqarith(self, a, b, lits):
        if numerically_equal(a, b):
            return []
        ta, tb = V.terms(a), V.terms(b)
        aa = [x for m in ta for x, _ in m]
        bb = [x for m in tb for x, _ in m]
        ua = [x for x in dict.fromkeys(aa) if x not in bb]
        ub = [x for x in dict.fromkeys(bb) if x not in aa]
        if ua and ub:
            m = {}
            used = set()
            for x in ua:
                for y in ub:
                    if y in used or x.op != y.op:
                        continue
                    if self.same(x, y, lits):
                        m[x] = y
                        used.add(y)
                        break
            if m:
                a2 = substitute(a, m)
                if a2 is b or numerically_equal(a2, b):
                    return []
                if a2 is not a:
                    return self.eqv(a2, b, lits)
        c = self.inner_cond(a) or self.inner_cond(b)
        if c is not None and c not in lits:
            return self.split(a, b, c, lits)
        if a.op != "poly" and a.op == b.op:
            r = self.descend(a, b, lits)
            return r
        # same shape, exactly one differing factor on each side: report that factor
        if len(ua) == 1 and len(ub) == 1 and ua[0].op == ub[0].op:
            if numerically_equal(substitute(a, {ua[0]: raw("sym", "#hole")}), substitute(b, {ub[0]: raw("sym", "#hole")})):
                r = self.eqv(ua[0], ub[0], lits)
                if r:
                    return r
        return [self.miss(a, b, lits)]

    def pair_atoms(self, a, b, lits):
        xs, ys = bool_atoms(a, []), bool_atoms(b, [])
        m = {}
        ub = [y for y in ys if y not in xs]
        for x in xs:
            if x in ys:
                continue
            for y in ub:
                if x.op == y.op and y not in m.values() and self.atom_same(x, y, lits):
                    m[x] = y
                    break
        return m

    def atom_same(self, x, y, lits):
        if x.op in ("lt0", "eq0"):
            return not self.eqarith(x.a[0], y.a[0], lits) if (arith(x.a[0]) or arith(y.a[0])) else self.same(x.a[0], y.a[0], lits)
        try:
            return not self.descend(x, y, lits)
        except Budget:
            raise

    def eqbool(self, a, b, lits):
        m = self.pair_atoms(a, b, lits)
        if m:
            a = substitute(a, m)
            if a is b:
                return []
        return self.truth_table(a, b, lits)

    def truth_table(self, a, b, lits):
        self.tick()
        if a is b:
            return []
        if a in (TRUE, FALSE) and b in (TRUE, FALSE):
            return [self.miss(a, b, lits, "condition")]
        atom = pick_atom(a if a not in (TRUE, FALSE) else b)
        if atom.op == "raise":
            return [self.miss(a, b, lits)]
        for v in (True, False):
            l2 = {**lits, atom: v}
            if not feasible(self.ev, l2):
                continue
            s = {atom: TRUE if v else FALSE}
            r = self.truth_table(substitute(a, s), substitute(b, s), l2)
            if r:
                return [self.miss(a, b, lits, "condition")] if r[0].why == "condition" and not self._deep(r[0]) else r
        return []

    def _deep(self, m):
        return False

    def descend(self, a, b, lits, ints=True):
        op = a.op
        if op != b.op:
            return [self.miss(a, b, lits)]
        if op in ("sym", "bv", "const", "cnum", "opaque", "global", "extfn", "cls", "enum", "raise", "exc", "tok", "clo"):
            return [self.miss(a, b, lits)]
        if op == "bind":
            if a.a[0] != b.a[0]:
                return [self.miss(a, b, lits)]
            vs = []
            for _ in range(a.a[0]):
                s = fresh("i" if ints else "x")
                if ints:
                    V.INTSYMS.add(s)
                vs.append(s)
            ib = instantiate(b, vs)
            with self.within(ib):
                return self.eqv(instantiate(a, vs), ib, lits)
        if op == "call":
            if a.a[0] != b.a[0]:
                return [self.miss(a, b, lits)]
            da, db = dict(a.a[1]), dict(b.a[1])
            if set(da) != set(db):
                return [self.miss(a, b, lits)]
            if a.a[0] in ("min", "max"):
                return self.multiset(list(da.values()), list(db.values()), a, b, lits)
            return together([self.eqv(da[k], db[k], lits) for k in da])
        if op in ("cm", "any"):
            r = self.eqv(a.a[0], b.a[0], lits)
            if r:
                return [self.miss(a, b, lits, "iteration")] if r else r
            return self.descend(a.a[1], b.a[1], lits)
        if op in ("dict", "update"):
            ia = dict(a.a[0]) if op == "dict" else dict(a.a[1])
            ib = dict(b.a[0]) if op == "dict" else dict(b.a[1])
            out = []
            if op == "update":
                out += self.eqv(a.a[0], b.a[0], lits)
            if set(ia) != set(ib):
                return out + [self.miss(a, b, lits, "keys")]
            for k in ia:
                out += self.eqv(ia[k], ib[k], lits)
            return out
        if op == "new":
            if a.a[0] != b.a[0]:
                return [self.miss(a, b, lits)]
            da, db = dict(a.a[1]), dict(b.a[1])
            if set(da) != set(db):
                return [self.miss(a, b, lits, "fields")]
            out = []
            for k in da:
                out += self.eqv(da[k], db[k], lits)
            return out
        if op == "proj":
            if a.a[0].op == "fold" and b.a[0].op == "fold":
                return self.fold(a, b, lits)
            if a.a[0].op == "while" and b.a[0].op == "while":
                return self.loop(a, b, lits)
            if a.a[1] != b.a[1]:
                return [self.miss(a, b, lits)]
            return self.eqv(a.a[0], b.a[0], lits)
        if op in ("and", "or", "not"):
            return self.eqbool(a, b, lits)
        if op == "poly":
            return self.eqarith(a, b, lits)
        if op == "seq" or op == "cat" or op == "concat":
            if len(a.a[0]) != len(b.a[0]):
                return [self.miss(a, b, lits)]
        # generic: same data shape
        if op in ("seq", "ret", "cat", "lam"):
            return self.data(a.a, b.a, a, b, lits)
        if len(a.a) != len(b.a):
            return [self.miss(a, b, lits)]
        return together([self.data(x, y, a, b, lits) for x, y in zip(a.a, b.a)])

    def multiset(self, xs, ys, a, b, lits):
        if len(xs) != len(ys):
            return [self.miss(a, b, lits)]
        rest = list(ys)
        for x in xs:
            for y in rest:
                if self.same(x, y, lits):
                    rest.remove(y)
                    break
            else:
                return [self.miss(a, b, lits)]
        return []

    def data(self, x, y, a, b, lits):
        if isinstance(x, V.N) and isinstance(y, V.N):
            return self.eqv(x, y, lits) if x.op != "bind" or y.op != "bind" else self.descend(x, y, lits, a.op in ("cm", "any"))
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return [self.miss(a, b, lits)]
            out = []
            for p, q in zip(x, y):
                out += self.data(p, q, a, b, lits)
            return out
        return [] if x == y else [self.miss(a, b, lits)]

    def loop(self, a, b, lits):
        (ia, ca, ba), ja = a.a[0].a, a.a[1]
        (ib, cb, bb), jb = b.a[0].a, b.a[1]
        k = len(ia)
        if k != len(ib) or k > 5:
            return [self.miss(a, b, lits)]
        best = None
        for perm in itertools.permutations(range(k)):
            if perm[ja] != jb:
                continue
            out = []
            for i in range(k):
                out += self.eqv(ia[i], ib[perm[i]], lits)
            ss = [fresh("s") for _ in range(k)]
            sb = [None] * k
            for i in range(k):
                sb[perm[i]] = ss[i]
            ta, tb = instantiate(ba, ss), instantiate(bb, sb)
            cond = instantiate(cb, sb)
            step = []
            with self.within(tb, cond):
                step += self.eqv(instantiate(ca, ss), cond, lits)
                for i in range(k):
                    step += self.eqv(ta.a[0][i], tb.a[0][perm[i]], lits)
            if not out and not step:
                return []
            best = self.nearer(best, out, step)
        return best

    def nearer(self, best, init, step):
        """The correspondence of loop states that leaves fewest differences; a loop that starts
        *and* steps differently may still compute the same."""
        out = init + step
        if init and step:
            for m in out:
                m.soft = m.soft or "a loop with other initial values and another step"
        if best is None or len(out) < len(best) or len(out) == len(best) and best[0].soft and not out[0].soft:
            return out
        return best

    def fold(self, a, b, lits):
        fa, ja = a.a
        fb, jb = b.a
        na, ia, ba = fa.a
        nb, ib, bb = fb.a
        if len(ia) != len(ib):
            return [self.miss(a, b, lits)]
        r = self.eqv(na, nb, lits)
        if r and V.numval(V.sub(na, nb)) is not None:
            return r
        best = self.bodies(a, b, lits)
        if r and best:
            # a loop may pick its elements itself instead of iterating over those picked
            r = [copy.copy(m) for m in r]
            for m in r:
                m.soft = m.soft or "a loop over other elements with another body"
        return r or best

    def bodies(self, a, b, lits):
        fa, ja = a.a
        fb, jb = b.a
        na, ia, ba = fa.a
        nb, ib, bb = fb.a
        k = len(ia)
        best = None
        for perm in itertools.permutations(range(k)):
            # code state i corresponds to spec state perm[i]
            if perm[ja] != jb:
                continue
            out = []
            for i in range(k):
                out += self.eqv(ia[i], ib[perm[i]], lits)
            idx = fresh("i")
            V.INTSYMS.add(idx)
            ss = [fresh("s") for _ in range(k)]
            ta = instantiate(ba, [idx] + ss)
            sb = [None] * k
            for i in range(k):
                sb[perm[i]] = ss[i]
            tb = instantiate(bb, [idx] + sb)
            step = []
            with self.within(tb):
                for i in range(k):
                    step += self.eqv(ta.a[0][i], tb.a[0][perm[i]], lits)
            if not out and not step:
                return []
            best = self.nearer(best, out, step)
        return best or [self.miss(a, b, lits)]


def impossible(ev, lits):
    groups = {}

    def put(x):
        if x.op in ("sym", "const", "bv") or V.numval(x) is not None:
            return
        k = (x.op, x.a[0] if x.op in ("call", "attr", "new") and isinstance(x.a[0], str) else None)
        g = groups.setdefault(k, [])
        if x not in g:
            g.append(x)

    for a in lits:
        if a.op in ("lt0", "eq0"):
            for mono in V.terms(a.a[0]):
                for x, _ in mono:
                    put(x)
        else:
            put(a)
    d = Differ(ev, budget=1500, fast=False, depth=1)
    m = {}
    for g in groups.values():
        if len(g) > 8:
            continue
        for i, x in enumerate(g):
            for y in g[:i]:
                if y in m or not V.has(x, lambda z: z.op == "ite") and not V.has(y, lambda z: z.op == "ite"):
                    continue
                if (d.atom_same(x, y, {}) if isbool(x) else d.same(x, y, {})):
                    m[x] = y
                    break
    if not m:
        return False
    new = {}
    for a, v in lits.items():
        b = substitute(a, m)
        if b.op == "not":
            b, v = b.a[0], not v
        if b in (TRUE, FALSE):
            if (b is TRUE) != v:
                return True
            continue
        if new.get(b, v) != v:
            return True
        new[b] = v
    return not feasible(ev, new)


# ------------------------------------------------------------------ verdict on a mismatch

FAMILY = [
    {"min", "max", "minof", "maxof", "numpy.argmin", "numpy.argmax", "minby", "maxby"},
    {"numpy.sin", "numpy.cos", "numpy.tan"},
    {"numpy.arcsin", "numpy.arctan", "numpy.arctan2"},
    {"floor", "int", "numpy.round", "numpy.ceil"},
    {"any", "all"},
    {".model_validate", ".model_construct"},
    {".zfill", ".rjust", ".ljust", ".center"},
    {".contains", ".intersects", ".crosses", ".within", ".covers", ".touches", ".overlaps"},
    {".shift", ".cummax", ".cummin", ".cumsum"},
    {"numpy.mean", "numpy.average", ".mean", ".max", ".min", ".sum", ".median"},
    {".altaz", ".radec", ".hadec"},
    {"skyfield.api.wgs84.geographic_position_of", "skyfield.api.wgs84.subpoint_of"},
    {"shapely.geometry.MultiPolygon", "shapely.geometry.Polygon", "shapely.geometry.GeometryCollection"},
]
CORE = {
    "abs", "min", "max", "floor", "int", "numpy.round", "sum", "any", "all", "len", "vlen",
    "numpy.sin", "numpy.cos", "numpy.arcsin", "numpy.arctan", "numpy.arctan2", "pow", "isinstance",
    "float", "str", "numpy.log", "numpy.exp",
}
STRUCT = {"fold", "while", "apply", "setitem", "setloc", "setattr", "throws", "lam", "proj", "partial", "star",
          "unbound", "missing", "loc", "tok", "fall", "safe", "atdef"}


def vocab(n):
    """Function symbols and structural operators of a term."""
    out = {}
    seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "call":
            out[x.a[0]] = out.get(x.a[0], 0) + 1
        elif x.op in ("extfn", "cls", "clo"):
            out[str(x.a[0])] = out.get(str(x.a[0]), 0) + 1
        elif x.op in STRUCT or x.op in ("cm", "cat"):
            out["#" + x.op] = out.get("#" + x.op, 0) + 1
        elif x.op == "sym" and x.a[0].startswith("@"):
            out[x.a[0]] = 1
        elif x.op == "attr" and isinstance(x.a[1], str) and x.a[1].startswith("_") and not x.a[1].startswith("__"):
            out["#private " + x.a[1]] = 1
        elif x.op == "opaque":
            out["#opaque"] = 1
        stack.extend(kids(x))
    return out


def definite(code, spec, known=()):
    """(True, '') if the difference is a definite one, else (False, reason).

    `known` is the vocabulary of the whole reference: code that differs in terms the reference
    itself uses elsewhere is no mere rephrasing.
    """
    vc, vs = vocab(code), vocab(spec)
    if "#opaque" in vc:
        o = V.has(code, lambda x: x.op == "opaque")
        return False, f"unmodelled construct: {o.a[0]} {o.loc or ''}"
    if "#opaque" in vs:
        o = V.has(spec, lambda x: x.op == "opaque")
        return False, f"reference not modelled: {o.a[0]} {o.loc or ''}"
    new = {k for k in vc if k not in vs}
    gone = {k for k in vs if k not in vc}
    for k in sorted(new):
        if k in ("#cm", "#cat"):
            continue
        if k in CORE or k in known:
            continue
        if any(k in f and (gone & f or set(vs) & f) for f in FAMILY):
            continue
        if gone:
            return False, f"expressed with {k} instead of {', '.join(sorted(gone)[:3])}"
        return False, f"uses {k}, which the rule does not mention"
    soft_gone = {k for k in gone if k not in CORE and k not in ("#cm", "#cat")}
    hard_new = {k for k in new if k in CORE or k in ("#cm", "#cat")}
    if soft_gone and hard_new and not any((soft_gone & f) and (hard_new & f) for f in FAMILY):
        # e.g. a norm written as the root of a sum of squares
        if any(k.startswith(("numpy.", "builtins.", "sum", "#")) or k in ("sorted", "dictof") for k in soft_gone):
            return False, f"{', '.join(sorted(soft_gone)[:3])} rewritten with {', '.join(sorted(hard_new)[:3])}"
    return True, ""
