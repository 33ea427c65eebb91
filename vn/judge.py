"""
Is a difference between two value graphs a definite one?

The comparison in diff.py proves equality; failing to prove it is no proof of difference.  A
mismatch is reported as a violation only when the differing part of the code's value is built
from things the reference itself talks about, by operations whose algebra is decided here
(arithmetic, conditions, literal containers, fields of the inputs), or when it has the shape
of the reference and differs from it at such a place.  A value written with any other
construct may be a rephrasing, and is "undecided".
"""
from . import nodes as V
from . import ext
from . import interp
from .nodes import TRUE, FALSE, NONE, kids
from .diff import FAMILY, Mismatch, vocab, assume

ARITH = {
    "abs", "min", "max", "floor", "int", "numpy.round", "numpy.ceil",
    "numpy.sin", "numpy.cos", "numpy.tan", "numpy.arcsin", "numpy.arctan", "numpy.arctan2", "pow",
    "isinstance", "float", "numpy.log", "numpy.exp", "builtins.bool",
}
# results that a program can spell out in other terms the analysis does not equate
ALGEBRA = {
    "numpy.linalg.norm", "numpy.hypot", "numpy.dot", "numpy.matmul", "numpy.cross", "numpy.sum", "numpy.mean",
    "numpy.average", "numpy.diff", "numpy.cumsum", "numpy.einsum", "numpy.linspace", "numpy.arange",
    "numpy.clip", "numpy.where", "numpy.concatenate", "numpy.insert", "numpy.append", "numpy.column_stack",
    "numpy.vstack", "numpy.hstack", "numpy.stack", "numpy.argsort", "numpy.sort", "numpy.array", "numpy.full",
    "numpy.ones", "numpy.zeros", "numpy.eye", "numpy.trace", "numpy.nonzero", "sum", "len", "vlen", "sorted",
    "any", "all", "numpy.any", "numpy.all", "dictof", "builtins.set", "builtins.sorted", "builtins.reversed",
    "builtins.zip", "builtins.enumerate", "builtins.dict", "minof", "maxof", "minby", "maxby", "str",
}
# what is left of a matrix, one way or another
FAMILY.append({"numpy.trace", "numpy.sum", "sum", "numpy.prod", "numpy.linalg.det", "numpy.max", "numpy.min"})
# functions that change what they are applied to
CHANGES = {
    ".drop_duplicates", ".dropna", ".simplify", ".buffer", ".convex_hull", ".head", ".tail", ".abs", ".clip",
    ".fillna", ".ffill", ".bfill", ".round", "numpy.unique", "numpy.trunc", "numpy.sign", "numpy.negative",
    ".lower", ".upper", ".swapcase", ".title", ".sample", ".shift", ".cumsum", ".cummax",
}
# values of the moment, which no input determines
CLOCK = {"datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "time.time", "uuid.uuid4"}
LEAF = {"sym", "bv", "const", "cnum", "enum", "cls", "raise", "exc"}
COMPOSE = {"poly", "lt0", "eq0", "eq", "truth", "and", "or", "not", "ite", "seq", "new", "ret", "in", "arr", "lst", "tup",
           "dict", "cat", "bind", "cm", "any"}
# lists and reductions, which interp.py gives their meaning
SEQUENCE = {"range", "cat", "cm", "any", "slice", "enumerate", "zip", "proj", "fold", "concat", "bind", "index", "update"}
MEANT = set(interp.ELEM) | set(interp.ELEM2) | {
    "len", "vlen", "min", "max", "numpy.round", "sum", "numpy.sum", "minof", "maxof", "numpy.min", "numpy.max", "numpy.mean",
    "any", "all", "numpy.any", "numpy.all", "numpy.argmin", "numpy.argmax", "numpy.sort", "sorted", "builtins.sorted",
    "numpy.argsort", "numpy.nonzero", "builtins.reversed", "numpy.diff", "numpy.cumsum", "numpy.size", "numpy.shape",
    "numpy.concatenate", "numpy.insert", "numpy.linspace", "numpy.matmul", "numpy.dot", "numpy.cross",
}


def collect(roots, out=None):
    out = set() if out is None else out
    stack = list(roots)
    while stack:
        x = stack.pop()
        if x in out:
            continue
        out.add(x)
        stack.extend(kids(x))
    return out


class Judge:
    def __init__(self, ev, spec, code=None):
        self.ev = ev
        self.code = code
        self.root = spec
        self.base = collect([spec]) if spec is not None else set()
        self.words = vocab(spec) if spec is not None else {}
        self._codenodes = None
        self.attrs = {x.a[1] for x in self.base if x.op == "attr" and isinstance(x.a[1], str)}

        self.loose = False

    # -------------------------------------------------------------- parts the reference speaks about

    def known(self, n, memo=None):
        memo = self.memo if memo is None else memo
        r = memo.get(n)
        if r is None:
            memo[n] = True
            r = memo[n] = self._known(n)
            if not r:
                self.blame = self.blame or n
        return r

    def path(self, n):
        while True:
            if n.op in ("sym", "bv"):
                return True
            if n.op == "attr" and n.a[1] != "__dict__" and self.field(n):
                n = n.a[0]
                continue
            if n.op == "index" and (n.a[1].op != "slice" or self.loose and all(x.op == "const" or V.numval(x) is not None for x in kids(n.a[1]))):
                if n.a[1].op != "slice" and not self.known(n.a[1]):
                    return False
                n = n.a[0]
                continue
            return False

    def size(self, n):
        """A length; of a thing whose size is not its own to decide, when lists have their meaning."""
        if n.op != "call" or n.a[0] not in ("len", "vlen"):
            return False
        if not self.loose:
            return True
        x = n.a[1][0][1]
        while x.op == "call" and x.a[0] in interp.HOLDS and interp.HOLDS[x.a[0]] in dict(x.a[1]):
            x = dict(x.a[1])[interp.HOLDS[x.a[0]]]
        return x.op in ("sym", "attr", "index") or x.op == "call" and x.a[0] not in MEANT

    def field(self, n):
        if n.a[1] in self.attrs:
            return True
        t = self.ev.typeof(n.a[0])
        return bool(t and t[0] == "class")

    def _known(self, n):
        if n in self.nodes:
            return True
        op = n.op
        if op in LEAF:
            return True
        if op == "attr":
            if not isinstance(n.a[1], str) or n.a[1] == "__dict__" or n.a[1].startswith("_"):
                return False
            return self.field(n) and self.known(n.a[0])
        if self.loose and op == "call" and n.a[0] in ("min", "max") and len([x for x in collect([n]) if self.size(x)]) > 1:
            return False
        if self.loose and self.size(n):
            x = n.a[1][0][1]
            return self.path(x) or x.op == "call" and x.a[0] in self.words and x.a[0] not in MEANT and self.known(x)
        if self.loose and op == "index" and n.a[1].op != "slice":
            return all(self.known(x) for x in kids(n))
        if self.loose and (op in SEQUENCE or op == "call" and n.a[0] in MEANT):
            return all(self.known(x) for x in kids(n))
        if op == "index":
            return n.a[1].op != "slice" and (self.path(n) or n.a[0].op == "attr" and self.known(n.a[0]) and self.known(n.a[1]))
        if op == "extfn":
            return str(n.a[0]) in self.words or n.a[0].startswith("builtins.")
        if op in ("cm", "any") and not (self.words.get("#cm") or V.has(self.root, lambda x: x.op in ("cm", "any"))):
            return False
        if op in ("eq0", "lt0") and V.has(n, lambda x: x.op == "call" and x.a[0] in ("len", "vlen")) is not None:
            if any(x.op in ("eq0", "lt0") and self.lastof(n, x) for x in self.nodes):
                return False
        if op in COMPOSE:
            return all(self.known(x) for x in kids(n))
        if op == "call":
            name = n.a[0]
            if name in ("len", "vlen"):
                return self.path(n.a[1][0][1])
            if name in ("min", "max") and V.has(n, lambda x: x.op == "call" and x.a[0] in ("len", "vlen")) is not None:
                return False
            if name in ARITH or name in self.words and name not in ALGEBRA:
                return all(self.known(x) for x in kids(n))
        return False

    # -------------------------------------------------------------- aligned differences

    def pair(self, c, s):
        if c is s:
            return True
        k = (c, s)
        r = self.pmemo.get(k)
        if r is None:
            self.pmemo[k] = False
            r = self.pmemo[k] = self._pair(c, s)
        return r

    def _pair(self, c, s):
        if c.op == s.op and c.op in ("cm", "any") and c.a[0] is not s.a[0]:
            # lengths of different things may coincide
            sn = collect([s.a[0]])
            ls = {x for x in collect([c.a[0]]) if self.size(x)}
            ss = [x for x in sn if self.size(x)]
            if ss and any(x not in sn and not any(self.literals(x, y) or self.alike(x, y) for y in ss) for x in ls):
                self.blame = c.a[0]
                return False
        if self.known(c) and not self.reworded(c, s):
            return True
        if c.op == "call" and c.a[0] in CLOCK and self.path(s):
            return True
        if c.op == "call" and c.a[0] in CHANGES and any(x is s for x in kids(c)):
            return True
        if c.op != s.op:
            if s.op == "poly" and len(s.a[0]) == 1:
                pass
            return False
        if c.op == "call":
            if c.a[0] == ".replace" and s.a[0] == ".astimezone" and {k for k, _ in c.a[1]} == {"self", "tzinfo"}:
                return True
            if c.a[0] != s.a[0] and not any(c.a[0] in f and s.a[0] in f for f in FAMILY):
                return False
            dc, ds = dict(c.a[1]), dict(s.a[1])
            new, gone = set(dc) - set(ds), set(ds) - set(dc)
            if len(dc) == len(ds) == 1 and c.a[0] != s.a[0]:
                return self.pair(*dc.values(), *ds.values())
            if new and (gone or not self.declared(c.a[0]) or not all(self.known(dc[k]) for k in new)):
                return False
            return all(self.pair(dc[k], ds[k]) for k in dc if k in ds)
        if c.op == "poly":
            xs = {x for m, _ in c.a[0] for x, _ in m}
            ys = {x for m, _ in s.a[0] for x, _ in m}
            left = ys - xs
            for x in xs - ys:
                if self.known(x) and not any(self.reworded(x, y) for y in left):
                    continue
                if not any(self.pair(x, y) for y in left if y.op == x.op):
                    return False
            return True
        if c.op in ("and", "or"):
            xs, ys = set(c.a[0]), set(s.a[0])
            return all(self.known(x) or any(self.pair(x, y) for y in ys - xs) for x in xs - ys)
        return self.shape(c.a, s.a)

    def literals(self, x, y):
        """Two values that differ in a literal argument of the same function."""
        if x is y or not (isinstance(x, V.N) and isinstance(y, V.N)):
            if isinstance(x, tuple) and isinstance(y, tuple):
                return len(x) == len(y) and all(self.literals(p, q) for p, q in zip(x, y))
            return x is y or x == y
        if x.op == "const" and y.op == "const":
            return isinstance(x.a[0], str) and isinstance(y.a[0], str)
        return x.op == y.op and x.op in ("call", "seq") and self.literals(x.a, y.a)

    def alike(self, x, y):
        """Lengths of what one function makes of different things."""
        x, y = x.a[1][0][1], y.a[1][0][1]
        while x.op == y.op and x.op in ("attr", "index") and x.a[1] == y.a[1]:
            x, y = x.a[0], y.a[0]
        return x.op == y.op == "call" and x.a[0] == y.a[0] and x.a[0] not in MEANT and self.pair(x, y)

    def lastof(self, c, s):
        """An index compared with a length by == on one side and by an ordering on the other:
        the two agree for every index in range."""
        c, s = (x.a[0] if x.op == "not" else x for x in (c, s))
        if {c.op, s.op} != {"eq0", "lt0"}:
            return False
        p, q = (x.a[0] for x in (c, s))
        if V.numval(V.add(p, V.neg(q))) is None and V.numval(V.add(p, q)) is None:
            return False
        xs = {x for m, _ in p.a[0] for x, _ in m} if p.op == "poly" else {p}
        ls = {x for x in xs if x.op == "call" and x.a[0] in ("len", "vlen")}
        return bool(ls) and bool(xs - ls)

    def shape(self, x, y):
        if isinstance(x, V.N) and isinstance(y, V.N):
            return self.pair(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return all(self.known(z) for z in V._walk(x))
            return all(self.shape(p, q) for p, q in zip(x, y))
        return not isinstance(x, (V.N, tuple)) and not isinstance(y, (V.N, tuple))

    def declared(self, name):
        return name in ext.SIG or name.startswith(".") and name[1:] in ext.MSIG

    def reworded(self, c, s):
        """The reference uses a function that c may be spelling out."""
        if self.loose:
            return False
        if s.op not in ("call", "poly") or c.op not in ("poly", "call"):
            return False
        gone = {k for k in vocab(s) if k in ALGEBRA and k not in ("len", "vlen")} - set(vocab(c))
        if not gone:
            return False
        if c.op == "poly" and (len(c.a[0]) > 1 or any(len(m) > 1 or any(e != 1 for _, e in m) for m, _ in c.a[0])):
            return any(x not in self.snodes for x in collect([c]))
        return c.op == "call" and c.a[0] in ALGEBRA and not any(c.a[0] in f and gone & f for f in FAMILY)

    # -------------------------------------------------------------- verdict

    def definite(self, m):
        """(True, '') or (False, why) for one Mismatch."""
        self.loose = False
        m = self.relevant(m)
        x, y = V.numval(m.code), V.numval(m.spec)
        if x is not None and y is not None and not m.soft and not m.lits:
            # two numbers
            return abs(x - y) > 1e-12 * max(abs(x), abs(y)), "numbers that agree to twelve digits"
        ok, why = self.aligned(m)
        if m.code.op == "missing" or m.soft or V.has(m.code, lambda x: x.op == "opaque") is not None:
            return ok, why
        if ok:
            r, n = self.meaning(m)
            if r == "agree":
                return False, f"written differently, with the same value in {n} random interpretations"
            return ok, "different values in a random interpretation" if r == "differ" and not self.paired else ""
        self.loose = True
        try:
            if self.aligned(m)[0]:
                r, n = self.meaning(m)
                if r == "differ":
                    return True, ""
        finally:
            self.loose = False
        return ok, why

    def relevant(self, m):
        """Without the cases that the other cases make moot: those of both values' conditions that
        no longer occur in either once the rest is settled."""
        if self.code is None or self.root is None or len(m.lits) < 2 or len(m.lits) > 12:
            return m
        extra = [a for a in m.lits if a not in self.base and a.op in ("eq0", "lt0", "any") and a in self.codenodes()]
        if not extra:
            return m
        lits = dict(m.lits)
        for a in extra:
            rest = {b: v for b, v in lits.items() if b is not a}
            roots = [self.code, self.root, *m.scope]
            for b, v in rest.items():
                roots = [assume(r, b, v) for r in roots]
                if a not in collect(roots):
                    break
            if a not in collect(roots) and a not in collect([m.code, m.spec]):
                lits = rest
        if len(lits) == len(m.lits):
            return m
        n = Mismatch(m.code, m.spec, lits, m.why, m.scope, m.soft)
        n.refuted, n.peers = m.refuted, m.peers
        return n

    def codenodes(self):
        if self._codenodes is None:
            self._codenodes = collect([self.code])
        return self._codenodes

    def differs(self, m):
        """Definite, and two random interpretations tell the two values apart."""
        return self.aligned(m)[0] and self.meaning(m)[0] == "differ"

    def meaning(self, m):
        common = collect([m.code]) & collect([m.spec])
        return interp.compare(self.ev, m.code, m.spec, m.lits, ALGEBRA if self.loose else frozenset(), common)

    def aligned(self, m):
        if m.code.op == "missing":
            return True, ""
        if m.soft:
            return False, m.soft
        for n, side in ((m.code, "unmodelled construct"), (m.spec, "reference not modelled")):
            o = V.has(n, lambda x: x.op == "opaque")
            if o is not None:
                return False, f"{side}: {o.a[0]} {o.loc or ''}"
        self.blame = None
        self.paired = False
        self.memo, self.pmemo = {}, {}
        self.nodes = set(self.base)
        self.snodes = collect([m.spec])
        roots = [self.root] if self.root is not None else []
        roots += list(m.scope)
        self.nodes |= collect(roots)
        for a, v in m.lits.items():
            o = V.has(a, lambda x: x.op == "opaque")
            if o is not None:
                return False, f"case distinction on an unmodelled construct: {o.a[0]} {o.loc or ''}"
            h = a.a[0] if a.op == "truth" else a
            if h.op == "call" and h.a[0] == "hasattr" and not v and self.known(h.a[1][0][1]):
                pass
            elif a not in self.nodes and not self.known(a):
                ok = False
                for b in m.lits:
                    if b is not a and b.op == a.op and b in self.nodes and self.pair(a, b):
                        ok = self.paired = True
                        break
                if not ok:
                    return False, "case distinction on " + V.show(self.blame or a, 4)[:200] + ", which the rule does not mention"
            roots = [assume(r, a, v) for r in roots]
            self.memo, self.pmemo = {}, {}
            self.nodes |= collect(roots)
        self.nodes |= self.snodes
        self.memo, self.pmemo = {}, {}
        self.blame = None
        if self.pair(m.code, m.spec):
            for group in m.peers:
                for x in group:
                    ok, why = self.definite(x)
                    if ok:
                        break
                if not ok:
                    return False, why
            return True, ""
        return False, "expressed with " + V.show(self.blame or m.code, 4)[:200] + ", which the rule does not mention"
