"""
Hash-consed value graph with algebraic normalisation.

Every value an analysed function can compute is a node.  Two expressions that the
rules below identify become the *same* node, so "the code computes what the rule
says" is node identity (plus the case analysis on conditions in diff.py).

Numbers are sums of products of atoms with rational exponents; bound variables are
de Bruijn indices; lists are a concat-map normal form, so comprehensions, append
loops, map() and generator arguments coincide.
"""
from fractions import Fraction as Fr

_table = {}
_serial = [0]


class N:
    __slots__ = ("op", "a", "id", "maxbv", "syms", "_understood", "loc", "size")

    def __repr__(self):
        return show(self, 6)


EMPTY = frozenset()


def raw(op, *a):
    """Interned node without normalisation."""
    key = (op, a)
    n = _table.get(key)
    if n is not None:
        return n
    n = N()
    n.op = op
    n.a = a
    _serial[0] += 1
    n.id = _serial[0]
    n.loc = None
    n.size = 1
    mb = -1
    syms = EMPTY
    if op == "bv":
        mb = a[0]
    elif op == "sym":
        syms = frozenset((n,))
    elif op == "bind":
        mb = a[1].maxbv - a[0]
        syms = a[1].syms
        n.size += a[1].size
    else:
        for c in kids(n):
            n.size += c.size
            if c.maxbv > mb:
                mb = c.maxbv
            if c.syms:
                syms = syms | c.syms if syms else c.syms
    n.maxbv = mb
    n.syms = syms
    _table[key] = n
    return n


def _walk(x):
    if isinstance(x, N):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _walk(y)


def kids(n):
    for x in n.a:
        yield from _walk(x)


def _mapdata(x, f):
    if isinstance(x, N):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_mapdata(y, f) for y in x)
    return x


# ---------------------------------------------------------------- constructors

def sym(name, ty=None):
    n = raw("sym", name)
    return n


def bv(i):
    return raw("bv", i)


def const(v):
    if isinstance(v, bool):
        return raw("const", "bool", v)
    if isinstance(v, (int, float, Fr)):
        return num(v)
    if v is None:
        return raw("const", "none", None)
    if isinstance(v, str):
        return raw("const", "str", v)
    if isinstance(v, bytes):
        return raw("const", "bytes", v)
    if v is Ellipsis:
        return raw("const", "ellipsis", None)
    return raw("const", type(v).__name__, repr(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def isconst(n, v=None):
    if n.op != "const":
        return False
    return True if v is None else (n.a[1] == v and type(n.a[1]) is type(v))


# ---------------------------------------------------------------- numbers

def tofrac(v):
    if isinstance(v, bool):
        return Fr(int(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fr(repr(v))
    return Fr(v)


def _poly(terms):
    """terms: dict monomial -> Fraction; monomial: tuple of (atom, exponent)."""
    items = [(m, c) for m, c in terms.items() if c != 0]
    for m, c in items:
        for a, _ in m:
            if a.op == "raise":
                return a
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return raw("poly", tuple(items))


def num(v):
    f = tofrac(v)
    if f is None:
        return raw("const", "float", str(v))
    return _poly({(): f})


def terms(n):
    if n.op == "poly":
        return dict(n.a[0])
    if n.op == "const" and n.a[0] == "bool":
        return {(): Fr(int(n.a[1]))}
    return {((n, Fr(1)),): Fr(1)}


def isnum(n):
    return n.op == "poly"


def numval(n):
    """Fraction if the node is a numeric constant."""
    if n.op != "poly":
        return None
    t = n.a[0]
    if len(t) == 0:
        return Fr(0)
    if len(t) == 1 and t[0][0] == ():
        return t[0][1]
    return None


def _mmul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def _fold(terms_):
    """Re-normalise numeric-constant atoms and whole-power polynomial atoms."""
    out = {}
    for m, c in terms_.items():
        again = None
        for a, e in m:
            if a.op == "poly" and e.denominator == 1 and e > 0:
                again = (a, e)
                break
            if a.op == "cnum" and e.denominator == 1:
                again = (a, e)
                break
        if again is None:
            out[m] = out.get(m, 0) + c
            continue
        a, e = again
        rest = tuple(x for x in m if x[0] is not a)
        if a.op == "cnum":
            t = {rest: c * Fr(a.a[0]) ** int(e)}
        else:
            t = {rest: c}
            for _ in range(int(e)):
                t = _tmul(t, dict(a.a[0]))
        for m2, c2 in _fold(t).items():
            out[m2] = out.get(m2, 0) + c2
    return out


def _tmul(t1, t2):
    r = {}
    for m1, c1 in t1.items():
        for m2, c2 in t2.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return r


def add(*xs):
    r = {}
    for x in xs:
        for m, c in terms(x).items():
            r[m] = r.get(m, 0) + c
    return _poly(r)


def neg(x):
    return _poly({m: -c for m, c in terms(x).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(*xs):
    t = {(): Fr(1)}
    for x in xs:
        t = _tmul(t, terms(x))
        if len(t) > 400:
            break
    else:
        return _poly(_fold(t))
    return raw("call", "numpy.multiply", tuple((str(i), x) for i, x in enumerate(xs)))


def _primes(n):
    f = {}
    p = 2
    while p * p <= n and p < 1000:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def _const_pow(c, q):
    """monomial/coefficient pair for c**q, c > 0."""
    coef = Fr(1)
    mono = []
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in _primes(n).items():
            e = q * k * s
            fl = e.numerator // e.denominator
            coef *= Fr(p) ** fl
            r = e - fl
            if r:
                mono.append((raw("cnum", p), r))
    d = {}
    for a, e in mono:
        d[a] = d.get(a, Fr(0)) + e
    m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
    return m, coef


def power(b, e):
    q = numval(e)
    if q is None or q.denominator > 24 or abs(q) > 24:
        bt = numval(b)
        if bt == 1:
            return num(1)
        return raw("call", "pow", (("0", b), ("1", e)))
    if q == 0:
        return num(1)
    if q == 1:
        return b
    t = terms(b)
    if len(t) == 0:
        return num(0) if q > 0 else raw("call", "pow", (("0", b), ("1", e)))
    if len(t) == 1:
        (m, c), = t.items()
        if c < 0 and q.denominator != 1:
            return raw("call", "pow", (("0", b), ("1", e)))
        sign = -1 if (c < 0 and q.numerator % 2 == 1) else 1
        cm, cc = _const_pow(abs(c), q) if q.denominator != 1 else ((), abs(c) ** int(q))
        mm = tuple((a, x * q) for a, x in m)
        return _poly(_fold({_mmul(mm, cm): sign * cc}))
    if q.denominator == 1 and 0 < q <= 4 and len(t) ** int(q) <= 256:
        r = {(): Fr(1)}
        for _ in range(int(q)):
            r = _tmul(r, t)
        return _poly(_fold(r))
    # extract content and common monomial, keep the primitive part as an atom
    content = None
    from math import gcd
    g = 0
    l = 1
    for c in t.values():
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    content = Fr(g, l)
    common = None
    for m in t:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
    # also negative exponents: clear denominators
    for m in t:
        for a, e in m:
            if e < 0:
                common[a] = min(common.get(a, Fr(0)), e)
    for a in list(common):
        lo = min(dict(m).get(a, Fr(0)) for m in t)
        common[a] = lo
    cm = tuple(sorted(((a, e) for a, e in common.items() if e), key=lambda x: x[0].id))
    inv = tuple((a, -e) for a, e in cm)
    prim = {_mmul(m, inv): c / content for m, c in t.items()}
    lead = sorted(prim.items(), key=lambda mc: tuple((a.id, x) for a, x in mc[0]))[0][1]
    sign = 1
    if lead < 0 and q.denominator == 1:
        prim = {m: -c for m, c in prim.items()}
        sign = -1 if q.numerator % 2 else 1
    p = _poly(_fold(prim))
    if p.op != "poly" or len(p.a[0]) == 1:
        base = power(p, e)
    else:
        base = _poly({((p, q),): Fr(1)})
    km, kc = _const_pow(content, q) if q.denominator != 1 else ((), content ** int(q))
    outer = _poly(_fold({_mmul(tuple((a, x * q) for a, x in cm), km): kc * sign}))
    return mul(outer, base) if outer is not num(1) else base


def div(a, b):
    return mul(a, power(b, num(-1)))


PI = raw("sym", "#pi")


# ---------------------------------------------------------------- booleans

BOOL_CALLS = {
    "isinstance", "any", "all", "numpy.isnan", "pandas.isna", "os.path.exists",
    ".is_valid", ".contains", ".intersects", ".crosses", ".isdigit", ".isna",
    "hasattr", "callable", "numpy.isclose", "issubclass", ".notna",
}


def isbool(n):
    return n.op in ("and", "or", "not", "eq", "lt0", "eq0", "truth", "any", "in") or (
        n.op == "const" and n.a[0] == "bool"
    ) or (n.op == "call" and n.a[0] in BOOL_CALLS) or (
        n.op == "ite" and isbool(n.a[1]) and isbool(n.a[2])
    )


INTSYMS = set()


def isint(n):
    """Node known to take integer values only."""
    if n.op == "poly":
        return all(
            c.denominator == 1 and all(e.denominator == 1 and e > 0 and isint(a) for a, e in m)
            for m, c in n.a[0]
        )
    if n.op == "call" and n.a[0] in ("len", "int", "numpy.size", "floordiv", "vlen", "numpy.searchsorted",
                                     "numpy.argmin", "numpy.argmax"):
        return True
    if n.op == "index" and n.a[0].op == "call" and n.a[0].a[0] in ("numpy.searchsorted",):
        return True
    if n.op == "sym":
        return n in INTSYMS
    return False


LENLIKE = ("len", "vlen")


def _nonneg(a):
    """Loop indices and lengths."""
    return (a.op == "sym" and a.a[0].startswith("%i")) or (a.op == "call" and a.a[0] in LENLIKE)


def _single_ite(p):
    """p = k + c * ite(...) -> (ite, rebuild) or None"""
    if p.op == "ite":
        return p, lambda x: x
    if p.op != "poly" or len(p.a[0]) > 2:
        return None
    its = [(m, c) for m, c in p.a[0] if m != ()]
    if len(its) != 1 or len(its[0][0]) != 1:
        return None
    a, e = its[0][0][0]
    if e != 1 or a.op != "ite":
        return None
    k = dict(p.a[0]).get((), Fr(0))
    c = its[0][1]
    return a, lambda x: add(num(k), mul(num(c), x))


def lt0(p):
    v = numval(p)
    if v is not None:
        return TRUE if v < 0 else FALSE
    si = _single_ite(p)
    if si is not None:
        return ite(si[0].a[0], lt0(si[1](si[0].a[1])), lt0(si[1](si[0].a[2])))
    t = terms(p)
    items = sorted(
        ((m, c) for m, c in t.items() if m != ()), key=lambda mc: tuple((a.id, e) for a, e in mc[0])
    )
    if all(len(m) == 1 and m[0][1] == 1 and _nonneg(m[0][0]) for m, _ in items):
        k = t.get((), Fr(0))
        if k >= 0 and all(c > 0 for _, c in items):
            return FALSE
        if k < 0 and all(c < 0 for _, c in items):
            return TRUE
    lead = abs(items[0][1])
    sgn = 1 if items[0][1] > 0 else -1
    if isint(p):
        # integer-valued: keep a positive leading coefficient (p<0 <=> not(-p-1<0))
        if sgn < 0:
            return not_(lt0(sub(neg(p), num(1))))
        k = t.get((), Fr(0))
        if (
            len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1
            and items[0][0][0][1] == 1
            and items[0][0][0][0].op == "call" and items[0][0][0][0].a[0] in LENLIKE
        ):
            a = items[0][0][0][0]
            if k == -1:
                return eq0(a)
            if k >= 0:
                return FALSE
        return raw("lt0", p)
    q = _poly({m: c / lead for m, c in t.items()})
    return raw("lt0", q)


def eq0(p):
    v = numval(p)
    if v is not None:
        return TRUE if v == 0 else FALSE
    si = _single_ite(p)
    if si is not None and all(_numericish(x) or numval(x) is not None for x in si[0].a[1:]):
        return ite(si[0].a[0], eq0(si[1](si[0].a[1])), eq0(si[1](si[0].a[2])))
    t = terms(p)
    items = sorted(t.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    nz = [x for x in items if x[0] != ()]
    lead = nz[0][1]
    return raw("eq0", _poly({m: c / lead for m, c in t.items()}))


def _numericish(n):
    return n.op in ("poly",) or (n.op == "call" and n.a[0] in LENLIKE)


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and y.op in ("const",):
            return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if _numericish(a) or _numericish(b):
        if a.op != "const" and b.op != "const":
            return eq0(sub(a, b))
    if a.op == "const" and b.op == "const":
        return FALSE
    if a.op == "enum" and b.op == "enum" and a.a[0].rsplit(".", 1)[0] == b.a[0].rsplit(".", 1)[0]:
        return FALSE
    # a freshly built object is never None
    for x, y in ((a, b), (b, a)):
        if y is NONE and (x.op in ("new", "seq", "dict", "cm", "cat", "poly", "lam", "update", "arr")
                          or isbool(x) or x.op == "const"
                          or isint(x) and (x.op in ("call", "bv") or x.op == "sym" and str(x.a[0]).startswith("%"))):
            return FALSE
        if y is TRUE and isbool(x):
            return x
        if y is FALSE and isbool(x):
            return not_(x)
        if x.op == "call" and x.a[0] == "mod" and numval(y) is not None:
            return eq0(sub(x, y))
    if a.id > b.id:
        a, b = b, a
    return raw("eq", a, b)


def not_(a):
    if a.op == "raise":
        return a
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.a[0]
    if a.op == "and":
        return or_(*[not_(x) for x in a.a[0]])
    if a.op == "or":
        return and_(*[not_(x) for x in a.a[0]])
    if a.op == "ite":
        return ite(a.a[0], not_(a.a[1]), not_(a.a[2]))
    return raw("not", a)


def _flat(op, xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.a[0] if x.op == op else (x,)
        for y in ys:
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    return out


def and_(*xs):
    xs = [x for x in _flat("and", xs) if x is not TRUE]
    if any(x is FALSE for x in xs):
        return FALSE
    ids = {x.id for x in xs}
    if any(not_(x).id in ids for x in xs if x.op in ("not",)):
        return FALSE
    # absorption: drop ors containing another conjunct; unit-resolve negated members
    out = []
    for x in xs:
        if x.op == "or":
            if any(y.id in ids for y in x.a[0]):
                continue
            ys = [y for y in x.a[0] if not_(y).id not in ids]
            if len(ys) != len(x.a[0]):
                return and_(*[z for z in xs if z is not x], or_(*ys))
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return raw("and", tuple(sorted(out, key=lambda n: n.id)))


def or_(*xs):
    xs = [x for x in _flat("or", xs) if x is not FALSE]
    if any(x is TRUE for x in xs):
        return TRUE
    ids = {x.id for x in xs}
    if any(not_(x).id in ids for x in xs if x.op in ("not",)):
        return TRUE
    out = []
    for x in xs:
        if x.op == "and":
            if any(y.id in ids for y in x.a[0]):
                continue
            ys = [y for y in x.a[0] if not_(y).id not in ids]
            if len(ys) != len(x.a[0]):
                return or_(*[z for z in xs if z is not x], and_(*ys))
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return raw("or", tuple(sorted(out, key=lambda n: n.id)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "raise":
        return c
    if c.op == "not":
        return ite(c.a[0], b, a)
    if c.op == "ite" and (c.a[1].op == "raise" or c.a[2].op == "raise"):
        return ite(c.a[0], ite(c.a[1], a, b), ite(c.a[2], a, b))
    if c.op == "ite":
        c = or_(and_(c.a[0], c.a[1]), and_(not_(c.a[0]), c.a[2]))
        return ite(c, a, b)
    if isbool(a) and isbool(b):
        return or_(and_(c, a), and_(not_(c), b))
    if b.op == "ite" and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if b.op == "ite" and b.a[2] is a:
        return ite(or_(c, not_(b.a[0])), a, b.a[1])
    if a.op == "ite" and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    if a.op == "ite" and a.a[1] is b:
        return ite(and_(c, not_(a.a[0])), a.a[2], b)
    if a.op == "ite" and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == "ite" and b.a[0] is c:
        return ite(c, a, b.a[2])
    if c.op == "or":
        return raw("ite", not_(c), b, a)
    return raw("ite", c, a, b)


LISTS = {"pyproj.database.query_utm_crs_info"}


def truth(x):
    if isbool(x) or x.op == "raise":
        return x
    v = numval(x)
    if v is not None:
        return FALSE if v == 0 else TRUE
    if x is NONE:
        return FALSE
    if x.op == "const":
        return TRUE if x.a[1] else FALSE
    if x.op == "seq":
        return TRUE if x.a[0] else FALSE
    if x.op in ("cm", "cat", "lst") or x.op == "call" and x.a[0] in LISTS:
        return not_(eq0(length(x)))
    if x.op == "call" and (x.a[0] in LENLIKE or x.a[0] == "mod"):
        return not_(eq0(x))
    if x.op == "ite":
        return ite(x.a[0], truth(x.a[1]), truth(x.a[2]))
    if x.op in ("new", "lam"):
        return TRUE
    return raw("truth", x)


# ---------------------------------------------------------------- sequences

def seq(*items):
    for x in items:
        if x.op == "raise":
            return x
    return raw("seq", tuple(items))


NIL = seq()


def cat(*xs):
    out = []
    for x in xs:
        ys = x.a[0] if x.op == "cat" else (x,)
        for y in ys:
            if y.op == "lst":
                y = y.a[0]
            if y.op == "seq" and not y.a[0]:
                continue
            if out and out[-1].op == "seq" and y.op == "seq":
                out[-1] = seq(*(out[-1].a[0] + y.a[0]))
            else:
                out.append(y)
    if not out:
        return NIL
    if len(out) == 1:
        return out[0] if out[0].op in ("seq", "cm", "cat", "ite") else raw("lst", out[0])
    return raw("cat", tuple(out))


def bind(m, body):
    return raw("bind", m, body)


def abstract(n, syms):
    """Replace symbols by bound variables: syms[0] -> bv(m-1) ... syms[-1] -> bv(0)."""
    m = len(syms)
    idx = {s: m - 1 - i for i, s in enumerate(syms)}
    target = frozenset(syms)
    memo = {}

    def go(x, d):
        if not (x.syms & target) and x.maxbv < d:
            return x
        k = (x, d)
        r = memo.get(k)
        if r is not None:
            return r
        if x.op == "sym":
            r = bv(idx[x] + d) if x in idx else x
        elif x.op == "bv":
            r = bv(x.a[0] + m) if x.a[0] >= d else x
        elif x.op == "bind":
            r = raw("bind", x.a[0], go(x.a[1], d + x.a[0]))
        else:
            r = rebuild(x, lambda y: go(y, d))
        memo[k] = r
        return r

    return bind(m, go(n, 0))


def instantiate(b, vals):
    """Open a binder with values (vals[i] for the i-th bound symbol)."""
    m, body = b.a
    assert m == len(vals)
    memo = {}

    def go(x, d):
        if x.maxbv < d:
            return x
        k = (x, d)
        r = memo.get(k)
        if r is not None:
            return r
        if x.op == "bv":
            i = x.a[0]
            if i < d:
                r = x
            elif i < d + m:
                r = shift(vals[m - 1 - (i - d)], d)
            else:
                r = bv(i - m)
        elif x.op == "bind":
            r = raw("bind", x.a[0], go(x.a[1], d + x.a[0]))
        else:
            r = rebuild(x, lambda y: go(y, d))
        memo[k] = r
        return r

    return go(body, 0)


def shift(n, k):
    if k == 0 or n.maxbv < 0:
        return n
    memo = {}

    def go(x, d):
        if x.maxbv < d:
            return x
        key = (x, d)
        r = memo.get(key)
        if r is None:
            if x.op == "bv":
                r = bv(x.a[0] + k)
            elif x.op == "bind":
                r = raw("bind", x.a[0], go(x.a[1], d + x.a[0]))
            else:
                r = rebuild(x, lambda y: go(y, d))
            memo[key] = r
        return r

    return go(n, 0)


def substitute(n, mapping):
    """Replace whole nodes (by identity) with others, re-normalising on the way up."""
    memo = {}

    def go(x, d):
        k = (x, d)
        r = memo.get(k)
        if r is not None:
            return r
        if x in mapping:
            r = shift(mapping[x], d)
        elif x.op == "bind":
            r = raw("bind", x.a[0], go(x.a[1], d + x.a[0]))
        elif x.op in ("sym", "bv", "const"):
            r = x
        else:
            r = rebuild(x, lambda y: go(y, d))
        memo[k] = r
        return r

    return go(n, 0)


_fresh = [0]


def fresh(hint="v"):
    _fresh[0] += 1
    return sym(f"%{hint}{_fresh[0]}")


def length(x):
    if x.op == "seq":
        return num(len(x.a[0]))
    if x.op in ("arr", "lst"):
        return length(x.a[0])
    if x.op == "cm":
        n, b = x.a
        body = b.a[1]
        k = _fixed_len(body)
        if k is not None:
            return mul(n, num(k))
    if x.op == "cat":
        return add(*[length(y) for y in x.a[0]])
    if x.op == "ite":
        return ite(x.a[0], length(x.a[1]), length(x.a[2]))
    if x.op == "const" and x.a[0] == "str":
        return num(len(x.a[1]))
    if x.op == "dict":
        return num(len(x.a[0]))
    if x.op == "update" and x.a[0].op == "call" and False:
        pass
    if x.op == "call" and x.a[0] in SAMELEN:
        d = dict(x.a[1])
        k = SAMELEN[x.a[0]]
        if k in d and set(d) <= {k, "a", "0", "side", "decimals", "kind", "n", "obj", "values"}:
            if x.a[0] == "numpy.diff" and "n" not in d:
                return sub(length(d[k]), num(1))
            if x.a[0] == "numpy.insert":
                if numval(d.get("obj", NIL)) is not None and numval(d.get("values", NIL)) is not None:
                    return add(length(d[k]), num(1))
            elif x.a[0] != "numpy.diff" and (arrayish(d[k]) or x.a[0] in ("numpy.sort", "numpy.argsort") and set(d) <= {"a", "kind"}):
                return length(d[k])
    if x.op == "call" and x.a[0] == "numpy.linspace" and "num" in dict(x.a[1]) and set(dict(x.a[1])) <= {"start", "stop", "num", "endpoint"}:
        return dict(x.a[1])["num"]
    if x.op == "call" and x.a[0] in ("sorted", "builtins.sorted", "builtins.reversed"):
        d = dict(x.a[1])
        k = "iterable" if "iterable" in d else "0"
        if k in d and set(d) <= {k, "key", "reverse"}:
            return length(d[k])
    if x.op == "poly":
        vs = [a for m, _ in x.a[0] for a, _ in m if arrayish(a)]
        if vs and all(arrayish(a) or numval(a) is not None for m, _ in x.a[0] for a, _ in m):
            n = length(vs[0])
            if all(length(a) is n for a in vs):
                return n
    v = vec_base(x)
    if v is not None:
        return raw("call", "vlen", (("0", v),))
    return raw("call", "len", (("0", x),))


SAMELEN = {
    "numpy.sin": "0", "numpy.cos": "0", "numpy.arcsin": "0", "numpy.arctan": "0", "abs": "0", "floor": "0",
    "numpy.round": "a", "numpy.cumsum": "a", "numpy.argsort": "a", "numpy.sort": "a", "numpy.searchsorted": "v",
    "numpy.diff": "a", "numpy.insert": "arr",
}


def arrayish(x):
    """Certainly a one-dimensional sequence of numbers."""
    if x.op in ("arr", "lst", "cm", "seq", "cat"):
        return True
    if x.op == "call" and x.a[0] in ("numpy.diff", "numpy.cumsum", "numpy.insert", "numpy.argsort", "numpy.sort"):
        return True
    if x.op == "call" and x.a[0] in SAMELEN:
        d = dict(x.a[1])
        return SAMELEN[x.a[0]] in d and arrayish(d[SAMELEN[x.a[0]]])
    if x.op == "poly":
        return any(arrayish(a) for m, _ in x.a[0] for a, _ in m)
    return False


VEC_ATTRS = {
    "longitude", "latitude", "elevation", "degrees", "m", "radians", "position",
    "velocity", "au", "km", "m_per_s", "au_per_d", "t", "_degrees", "hours",
}


def vec_base(x):
    """Base of a Skyfield vector whose components all have the same length."""
    hit = False
    while True:
        if x.op == "attr" and x.a[1] in VEC_ATTRS:
            x = x.a[0]
            hit = True
            continue
        if x.op == "call" and x.a[0] == ".utc_datetime" and len(x.a[1]) == 1:
            x = x.a[1][0][1]
            hit = True
            continue
        break
    while x.op == "call" and x.a[0] in (
        "skyfield.api.wgs84.geographic_position_of", "skyfield.api.wgs84.subpoint_of",
    ) and len(x.a[1]) == 1:
        x = x.a[1][0][1]
    return x if hit else None


def _fixed_len(body):
    if body.op == "seq":
        return len(body.a[0])
    if body.op == "ite":
        a, b = _fixed_len(body.a[1]), _fixed_len(body.a[2])
        return a if a is not None and a == b else None
    return None


def _sole(body):
    if body.op == "ite":
        return ite(body.a[0], _sole(body.a[1]), _sole(body.a[2]))
    return body.a[0][0]


def cm(n, b):
    """concat-map over range(n): b binds the index and yields a list."""
    body = b.a[1]
    if body.op == "ite" and _fixed_len(body) == 1:
        body = seq(_sole(body))
        b = bind(b.a[0], body)
    v = numval(n)
    if body.op == "seq" and not body.a[0]:
        return NIL
    if v is not None and v.denominator == 1 and 0 <= v <= 8:
        return cat(*[instantiate(b, [num(i)]) for i in range(int(v))])
    if body.op == "lst":
        pass
    # identity copy of a sequence: [xs[i] for i in range(len(xs))]
    if body.op == "seq" and len(body.a[0]) == 1:
        e = body.a[0][0]
        if e.op == "index" and e.a[1].op == "bv" and e.a[1].a[0] == 0 and e.a[0].maxbv < 0 and False:
            pass
        if e.op == "index" and e.a[1] is bv(0):
            base = e.a[0]
            if base.maxbv < 0 or 0 not in free_bvs(base):
                base = shift_down(base)
                if length(base) is n:
                    return raw("lst", base) if base.op not in ("seq", "cm", "cat", "lst") else base
        if e.op == "call" and e.a[0] == "copy.deepcopy" and len(e.a[1]) == 1:
            x = e.a[1][0][1]
            if x.op == "index" and x.a[1] is bv(0) and 0 not in free_bvs(x.a[0]):
                base = shift_down(x.a[0])
                if length(base) is n:
                    return call("copy.deepcopy", ((e.a[1][0][0], base),))
    return raw("cm", n, b)


def free_bvs(n):
    out = set()
    seen = set()

    def go(x, d):
        if x.maxbv < d or (x, d) in seen:
            return
        seen.add((x, d))
        if x.op == "bv":
            if x.a[0] >= d:
                out.add(x.a[0] - d)
        elif x.op == "bind":
            go(x.a[1], d + x.a[0])
        else:
            for y in kids(x):
                go(y, d)

    go(n, 0)
    return out


def shift_down(n):
    """Remove one unused binder (index 0)."""
    return instantiate(bind(1, n), [sym("#unused")])


def is_map(x):
    """cm that yields exactly one element per index."""
    return x.op == "cm" and x.a[1].a[1].op == "seq" and len(x.a[1].a[1].a[0]) == 1


def iterate(xs, f):
    """concat-map of python callable f (element, -> list node) over list node xs."""
    if xs.op == "seq":
        return cat(*[f(e) for e in xs.a[0]])
    if xs.op in ("arr", "lst"):
        return iterate(xs.a[0], f)
    if xs.op == "cat":
        return cat(*[iterate(y, f) for y in xs.a[0]])
    if xs.op == "ite":
        return lite(xs.a[0], iterate(xs.a[1], f), iterate(xs.a[2], f))
    if xs.op == "cm":
        n, b = xs.a
        i = fresh("i")
        INTSYMS.add(i)
        inner = iterate(instantiate(b, [i]), f)
        return cm(n, abstract(inner, [i]))
    if xs.op == "range":
        lo, hi, st = xs.a
        i = fresh("i")
        INTSYMS.add(i)
        cnt = range_count(lo, hi, st)
        return cm(cnt, abstract(f(add(lo, mul(i, st))), [i]))
    if xs.op == "enumerate":
        base, start = xs.a
        if base.op in ("arr", "lst"):
            base = base.a[0]
        if base.op == "seq":
            return cat(*[f(seq(add(num(k), start), e)) for k, e in enumerate(base.a[0])])
        if base.op == "ite":
            return lite(
                base.a[0],
                iterate(raw("enumerate", base.a[1], start), f),
                iterate(raw("enumerate", base.a[2], start), f),
            )
        i = fresh("i")
        INTSYMS.add(i)
        return cm(count(base), abstract(f(seq(add(i, start), elem(base, i))), [i]))
    if xs.op == "zip":
        parts = xs.a[0]
        ls = []
        for p in parts:
            l = count(p)
            if l in ls:
                continue
            ls.append(l)
        for l in list(ls):
            # the shorter of two whose lengths differ by a constant
            if any(m is not l and (numval(sub(l, m)) or 0) > 0 for m in ls):
                ls.remove(l)
        if len(ls) == 1:
            n = ls[0]
        else:
            n = raw("call", "min", tuple((str(k), l) for k, l in enumerate(sorted(ls, key=lambda z: z.id))))
        i = fresh("i")
        INTSYMS.add(i)
        return cm(n, abstract(f(seq(*[elem(p, i) for p in parts])), [i]))
    i = fresh("i")
    INTSYMS.add(i)
    return cm(count(xs), abstract(f(elem(xs, i)), [i]))


def span(x):
    """x = base[lo:-k:st] with literal bounds -> (base, lo, k, st)."""
    if x.op != "index" or x.a[1].op != "slice":
        return None
    lo, hi, st = x.a[1].a
    lo = Fr(0) if lo is NONE else numval(lo)
    st = Fr(1) if st is NONE else numval(st)
    hi = Fr(0) if hi is NONE else numval(hi)
    if lo is None or hi is None or st is None or lo < 0 or st < 1:
        return None
    if x.a[1].a[1] is not NONE and hi >= 0:
        return None
    return x.a[0], lo, -hi, st


def count(x):
    """Number of steps of an iteration over x (a negative number means none)."""
    s = span(x)
    if s is not None:
        return range_count(num(s[1]), sub(count(s[0]), num(s[2])), num(s[3]))
    if x.op == "call" and x.a[0] == "numpy.searchsorted" and "v" in dict(x.a[1]):
        return count(dict(x.a[1])["v"])
    return length(x)


def elem(x, i):
    """Element i of an iteration over x."""
    s = span(x)
    if s is not None:
        return elem(s[0], add(num(s[1]), mul(i, num(s[3]))))
    return index(x, i)


def lite(c, a, b):
    """ite over lists."""
    return ite(c, a, b)


def range_count(lo, hi, st):
    v = numval(st)
    if v == 1:
        return sub(hi, lo)
    return raw("call", "int", (("0", raw("call", "numpy.ceil", (("0", div(sub(hi, lo), st)),))),))


# ---------------------------------------------------------------- structures

def attr(x, name):
    if x.op == "new":
        for k, v in x.a[1]:
            if k == name:
                return v
    if x.op == "ite":
        if x.a[1].op == "new" or x.a[2].op == "new":
            return ite(x.a[0], attr(x.a[1], name), attr(x.a[2], name))
    if x.op == "raise":
        return x
    return raw("attr", x, name)


def dict_(items):
    """items: list of (key node, value node); later entries win."""
    d = {}
    for k, v in items:
        d[k] = v
    it = list(d.items())
    if all(k.op in ("const", "enum") or numval(k) is not None for k, _ in it):
        it.sort(key=lambda kv: (str(kv[0].a), kv[0].id))
    return raw("dict", tuple(it))


def update(base, k, v):
    """Functional base[k] = v."""
    if base.op == "dict" and k.op in ("const", "enum") and all(x.op == k.op for x, _ in base.a[0]):
        return dict_(list(base.a[0]) + [(k, v)])
    if base.op == "seq" and numval(k) is not None:
        i = int(numval(k))
        if -len(base.a[0]) <= i < len(base.a[0]):
            l = list(base.a[0])
            l[i] = v
            return seq(*l)
    if k.op == "const":
        items = {}
        b = base
        if base.op == "update":
            b, its = base.a
            items = dict(its)
        items[k] = v
        return raw("update", b, tuple(sorted(items.items(), key=lambda kv: (str(kv[0].a), kv[0].id))))
    return raw("setitem", base, k, v)


def index(x, i):
    if x.op == "raise":
        return x
    if x.op == "ite" and (x.a[1].op in ("seq", "dict", "cm", "cat", "update", "raise") or x.a[2].op in ("seq", "dict", "cm", "cat", "update", "raise")):
        return ite(x.a[0], index(x.a[1], i), index(x.a[2], i))
    v = numval(i)
    if x.op in ("arr", "lst"):
        return index(x.a[0], i) if i.op != "slice" else raw("index", x, i)
    if x.op == "seq" and v is not None and v.denominator == 1 and -len(x.a[0]) <= v < len(x.a[0]):
        return x.a[0][int(v)]
    if x.op == "seq" and i.op == "slice":
        lo, hi, st = i.a
        ok = all(y is NONE or numval(y) is not None for y in (lo, hi, st))
        if ok:
            s = slice(*[None if y is NONE else int(numval(y)) for y in (lo, hi, st)])
            return seq(*x.a[0][s])
    if x.op == "const" and x.a[0] == "str" and v is not None:
        try:
            return const(x.a[1][int(v)])
        except IndexError:
            pass
    if is_map(x) and i.op != "slice":
        neg_ = v is not None and v < 0
        if not neg_:
            return instantiate(x.a[1], [i]).a[0][0]
        return instantiate(x.a[1], [add(x.a[0], i)]).a[0][0]
    if x.op == "range" and i.op != "slice" and v is None:
        return add(x.a[0], mul(i, x.a[2]))
    if x.op == "dict" and i.op == "const":
        for k, y in x.a[0]:
            if k is i:
                return y
        if all(k.op == "const" for k, _ in x.a[0]):
            return raw("raise", "KeyError")
    if x.op == "dict" and i.op in ("sym", "attr", "enum", "index") and 0 < len(x.a[0]) <= 12 and (
            all(k.op == "const" for k, _ in x.a[0]) or all(k.op == "enum" for k, _ in x.a[0])):
        r = raw("raise", "KeyError")
        for k, y in reversed(x.a[0]):
            r = ite(eq(i, k), y, r)
        return r
    if x.op == "update" and i.op == "const":
        for k, y in x.a[1]:
            if k is i:
                return y
        return index(x.a[0], i)
    if x.op == "setitem" and x.a[1] is i:
        return x.a[2]
    if x.op == "call" and x.a[0] == "numpy.eye" and len(x.a[1]) == 1 and v is not None:
        n = numval(x.a[1][0][1])
        if n is not None and 0 <= v < n <= 4:
            return raw("arr", seq(*[num(1 if j == v else 0) for j in range(int(n))]))
    if x.op == "call" and x.a[0] == "numpy.linspace" and i.op != "slice" and (v is None or v >= 0) and (v is not None or isint(i)):
        d = dict(x.a[1])
        if d.get("endpoint") is FALSE and set(d) == {"start", "stop", "num", "endpoint"}:
            return add(d["start"], mul(sub(d["stop"], d["start"]), i, power(d["num"], num(-1))))
    if x.op == "call" and x.a[0] in ("numpy.diag", "numpy.diagonal") and len(x.a[1]) == 1 and v is not None and v >= 0:
        return index(x.a[1][0][1], seq(i, i))
    if x.op == "index" and x.a[1].op == "slice":
        r = _index_slice(x.a[0], x.a[1], i, v)
        if r is not None:
            return r
    return raw("index", x, i)


def _index_slice(x, sl, i, v):
    """x[a:b][k] and x[a:b][c:d] with literal, non-negative bounds."""
    lo, hi, st = [None if y is NONE else numval(y) for y in sl.a]
    if any(y is not NONE and (numval(y) is None or numval(y) < 0) for y in sl.a):
        return None
    lo = lo or 0
    if v is not None and v >= 0:
        k = lo + v * (st or 1)
        return index(x, num(k)) if hi is None or k < hi else None
    if i.op == "slice" and st in (None, 1):
        if any(y is not NONE and (numval(y) is None or numval(y) < 0) for y in i.a):
            return None
        a, b, s2 = [None if y is NONE else numval(y) for y in i.a]
        if s2 is not None and s2 != 1:
            return None
        a = lo + (a or 0)
        ends = [e for e in (hi, None if b is None else lo + b) if e is not None]
        return index(x, raw("slice", num(a) if a else NONE, num(min(ends)) if ends else NONE, NONE))
    return None


def any_(x):
    if x.op in ("arr", "lst"):
        return any_(x.a[0])
    if x.op == "seq":
        return or_(*[truth(e) for e in x.a[0]])
    if x.op == "cat":
        return or_(*[any_(e) for e in x.a[0]])
    if x.op == "ite":
        return ite(x.a[0], any_(x.a[1]), any_(x.a[2]))
    if x.op == "cm":
        n, b = x.a
        i = fresh("i")
        INTSYMS.add(i)
        body = any_(instantiate(b, [i]))
        if i not in body.syms:
            return and_(not_(eq0(n)), body)
        return anyb(n, abstract(body, [i]))
    if isbool(x):
        lifted = lift(x)
        if lifted is not None:
            n, f = lifted
            i = fresh("i")
            INTSYMS.add(i)
            return anyb(n, abstract(f(i), [i]))
    return raw("call", "any", (("0", x),))


def all_(x):
    if x.op in ("arr", "lst"):
        return all_(x.a[0])
    if x.op == "seq":
        return and_(*[truth(e) for e in x.a[0]])
    if x.op in ("cat",):
        return and_(*[all_(e) for e in x.a[0]])
    if x.op == "ite":
        return ite(x.a[0], all_(x.a[1]), all_(x.a[2]))
    if x.op == "cm":
        n, b = x.a
        i = fresh("i")
        INTSYMS.add(i)
        body = not_(all_(instantiate(b, [i])))
        if i not in body.syms:
            return not_(and_(not_(eq0(n)), body))
        return not_(anyb(n, abstract(body, [i])))
    if isbool(x):
        return not_(any_(not_(x)))
    return raw("call", "all", (("0", x),))


def lift(x):
    """Element-wise boolean over mapped lists -> (length, index -> element)."""
    maps = []
    seen = set()

    def go(y):
        if y.id in seen:
            return
        seen.add(y.id)
        b = span(y)
        b = b[0] if b is not None else y
        if b.op in ("arr", "lst") and is_map(b.a[0]):
            maps.append(y)
            return
        if is_map(y):
            maps.append(y)
            return
        if y.op in ("poly", "lt0", "eq0", "and", "or", "not", "eq"):
            for z in kids(y):
                go(z)
        elif y.op == "call" and y.a[0] in ("abs", "mod", "numpy.sin", "numpy.cos"):
            for z in kids(y):
                go(z)

    go(x)
    if not maps:
        return None
    n = count(maps[0])
    if any(count(m) is not n for m in maps):
        return None
    return n, lambda i: substitute(x, {m: elem(m, i) for m in maps})


def anyb(n, b):
    if b.a[1].op == "or":
        return or_(*[anyb(n, bind(1, x)) for x in b.a[1].a[0]])
    if 0 not in free_bvs(b.a[1]):
        return and_(not_(eq0(n)), shift_down(b.a[1]))
    if b.a[1].op == "and":
        out = [x for x in b.a[1].a[0] if 0 not in free_bvs(x)]
        if out:
            inn = [x for x in b.a[1].a[0] if 0 in free_bvs(x)]
            return and_(*[shift_down(x) for x in out], anyb(n, bind(1, and_(*inn))))
    v = numval(n)
    if v is not None and v.denominator == 1 and 0 <= v <= 8:
        return or_(*[instantiate(b, [num(i)]) for i in range(int(v))])
    return raw("any", n, b)


_call_hooks = {}


def call(name, args):
    """args: tuple of (param name, node). Runs the normaliser for the symbol."""
    for _, v in args:
        if v.op == "raise":
            return v
    h = _call_hooks.get(name)
    if h is not None:
        r = h(dict(args))
        if r is not None:
            return r
    return raw("call", name, tuple(sorted(args)))


def hook(name):
    def deco(f):
        _call_hooks[name] = f
        return f
    return deco


def rebuild(x, f):
    """Apply f to the children and re-run the smart constructor."""
    op = x.op
    if op in ("sym", "bv", "const", "cnum", "opaque", "raise", "global"):
        return x
    if op == "poly":
        r = {}
        changed = False
        out = num(0)
        parts = []
        for m, c in x.a[0]:
            factors = [num(c)]
            for a, e in m:
                b = f(a)
                if b is not a:
                    changed = True
                factors.append(power(b, num(e)) if e != 1 else b)
            parts.append(factors)
        if not changed:
            return x
        return add(*[mul(*p) for p in parts])
    if op == "bind":
        return raw("bind", x.a[0], f(x.a[1]))
    new = tuple(_mapdata(y, f) for y in x.a)
    if new == x.a:
        return x
    return make(op, new)


def make(op, a):
    c = _CONS.get(op)
    if c is None:
        return raw(op, *a)
    return c(a)


_CONS = {
    "and": lambda a: and_(*a[0]),
    "or": lambda a: or_(*a[0]),
    "not": lambda a: not_(a[0]),
    "ite": lambda a: ite(*a),
    "eq": lambda a: eq(*a),
    "lt0": lambda a: lt0(a[0]),
    "eq0": lambda a: eq0(a[0]),
    "truth": lambda a: truth(a[0]),
    "cat": lambda a: cat(*a[0]),
    "lst": lambda a: cat(a[0]),
    "cm": lambda a: cm(*a),
    "any": lambda a: anyb(*a),
    "attr": lambda a: attr(*a),
    "index": lambda a: index(*a),
    "dict": lambda a: dict_(list(a[0])),
    "call": lambda a: call(a[0], a[1]),
    "seq": lambda a: seq(*a[0]),
    "update": lambda a: _reupdate(*a),
    "setitem": lambda a: update(*a),
    "concat": lambda a: concat(*a[0]),
}


def _reupdate(b, items):
    for k, v in items:
        b = update(b, k, v)
    return b


def concat(*xs):
    """String concatenation."""
    out = []
    for x in xs:
        ys = x.a[0] if x.op == "concat" else (x,)
        for y in ys:
            if y.op == "const" and y.a[1] == "":
                continue
            if out and out[-1].op == "const" and y.op == "const":
                out[-1] = const(str(out[-1].a[1]) + str(y.a[1]))
            else:
                out.append(y)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    return raw("concat", tuple(out))


def opaque(why, loc=None):
    _fresh[0] += 1
    n = raw("opaque", why, _fresh[0])
    n.loc = loc
    return n


def has(n, pred):
    seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            return x
        stack.extend(kids(x))
    return None


# ---------------------------------------------------------------- printing

def show(n, d=8):
    if not isinstance(n, N):
        return repr(n)
    if d <= 0:
        return "…"
    op, a = n.op, n.a
    s = lambda x: show(x, d - 1)
    if op == "const":
        return repr(a[1])
    if op == "sym":
        return a[0]
    if op == "bv":
        return f"${a[0]}"
    if op == "cnum":
        return str(a[0])
    if op == "poly":
        if not a[0]:
            return "0"
        out = []
        for m, c in a[0]:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for x, e in m:
                fs.append(s(x) if e == 1 else f"{s(x)}^{e}")
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "call":
        return f"{a[0]}(" + ", ".join(f"{k}={s(v)}" if not k.isdigit() else s(v) for k, v in a[1]) + ")"
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "index":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if op == "seq":
        return "[" + ", ".join(s(x) for x in a[0]) + "]"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(s(x) for x in a[0]) + ")"
    if op == "not":
        return f"not {s(a[0])}"
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == "lt0":
        return f"{s(a[0])}<0"
    if op == "eq0":
        return f"{s(a[0])}==0"
    if op == "eq":
        return f"{s(a[0])}=={s(a[1])}"
    if op == "cm":
        return f"for$<{s(a[0])}:{s(a[1].a[1])}"
    if op == "any":
        return f"any$<{s(a[0])}:{s(a[1].a[1])}"
    if op == "bind":
        return f"λ{a[0]}.{s(a[1])}"
    if op == "dict":
        return "{" + ", ".join(f"{s(k)}: {s(v)}" for k, v in a[0]) + "}"
    if op == "update":
        return s(a[0]) + "{" + ", ".join(f"{s(k)}:={s(v)}" for k, v in a[1]) + "}"
    if op == "new":
        return f"{a[0].split('.')[-1]}(" + ", ".join(f"{k}={s(v)}" for k, v in a[1]) + ")"
    if op == "raise":
        return f"raise {a[0]}"
    if op == "opaque":
        return f"?{a[0]}"
    if op == "concat":
        return "+".join(s(x) for x in a[0])

    def g(x):
        if isinstance(x, N):
            return s(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(g(y) for y in x) + ")"
        return str(x)

    return f"{op}<" + ", ".join(g(x) for x in a) + ">"
