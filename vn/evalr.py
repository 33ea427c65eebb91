"""
Builds the value graph of a function from its syntax tree (gated-SSA style).

No path is enumerated and nothing is executed: every statement is translated once
(joins become `ite` nodes, loops become concat-map / sum / any / fold nodes), calls to
repository helpers are expanded or kept as uninterpreted calls, and everything that is
not modelled becomes an `opaque` node, which makes any comparison that depends on it
"undecided" instead of a verdict.
"""
import ast
import copy
import sys

from . import nodes as V
from . import ext
from .nodes import (
    N, NIL, NONE, TRUE, FALSE, raw, sym, const, num, add, sub, mul, div, power, neg,
    ite, and_, or_, not_, eq, lt0, truth, seq, cat, cm, iterate, length, index, attr,
    dict_, update, call, opaque, abstract, instantiate, substitute, fresh, numval, concat,
    any_, all_, INTSYMS, bv,
)
from .pyload import dotted

sys.setrecursionlimit(20000)


class Cell:
    __slots__ = ("v", "roots", "esc", "views", "holds")

    def __init__(self, v, roots=frozenset(), esc=False, views=frozenset(), holds=frozenset()):
        # views: names of variables that (may) share this value's storage;
        # holds: those that share the storage of its elements
        self.v, self.roots, self.esc, self.views, self.holds = v, roots, esc, views, holds


class Env:
    def __init__(self, module, fn=None, parent=None, cls=None):
        self.vars = {}
        self.module, self.fn, self.parent, self.cls = module, fn, parent, cls
        self.frame = self
        self.nonlocals = set()

    def fork(self):
        e = Env(self.module, self.fn, self.parent, self.cls)
        e.frame = self.frame
        e.nonlocals = self.nonlocals
        memo = {}
        for k, c in self.vars.items():
            d = memo.get(id(c))
            if d is None:
                d = memo[id(c)] = Cell(c.v, c.roots, c.esc, c.views, c.holds)
            e.vars[k] = d
        return e

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return None

    def heap(self):
        c = self.find("#heap")
        return c


UNBOUND = raw("unbound")


def merge(c, a, b):
    e = Env(a.module, a.fn, a.parent, a.cls)
    e.frame = a.frame
    e.nonlocals = a.nonlocals
    memo = {}
    for k in list(a.vars) + [x for x in b.vars if x not in a.vars]:
        x, y = a.vars.get(k), b.vars.get(k)
        key = (id(x), id(y))
        d = memo.get(key)
        if d is None:
            xv = x.v if x else UNBOUND
            yv = y.v if y else UNBOUND
            d = Cell(
                ite(c, xv, yv),
                (x.roots if x else frozenset()) | (y.roots if y else frozenset()),
                bool((x and x.esc) or (y and y.esc)),
                (x.views if x else frozenset()) | (y.views if y else frozenset()),
                (x.holds if x else frozenset()) | (y.holds if y else frozenset()),
            )
            memo[key] = d
        e.vars[k] = d
    return e


def facts(c, v, out):
    """Atoms whose value follows from condition c having value v."""
    if c.op == "not":
        return facts(c.a[0], not v, out)
    out[c] = v
    if (c.op == "and" and v) or (c.op == "or" and not v):
        for x in c.a[0]:
            facts(x, v, out)
    return out


def under(env, c, v):
    """Drops the parts of variables that condition c (having value v) rules out."""
    known = facts(c, v, {})

    def pick(n):
        while n.op == "ite":
            f = n.a[0]
            neg_ = False
            if f.op == "not":
                f, neg_ = f.a[0], True
            if f in known:
                n = n.a[1] if known[f] != neg_ else n.a[2]
            elif f.op == "and" and any(known.get(x) is False for x in f.a[0]):
                n = n.a[2]
            elif f.op == "or" and any(known.get(x) is True for x in f.a[0]):
                n = n.a[1]
            else:
                break
        return n

    for c_ in env.vars.values():
        if c_.v.op == "ite":
            c_.v = pick(c_.v)
    return env


class K:
    __slots__ = ("next", "ret", "brk", "cont")

    def __init__(self, next, ret, brk=None, cont=None):
        self.next, self.ret, self.brk, self.cont = next, ret, brk, cont

    def with_next(self, n):
        return K(n, self.ret, self.brk, self.cont)


def map_leaves(o, f):
    if o.op == "ite":
        return ite(o.a[0], map_leaves(o.a[1], f), map_leaves(o.a[2], f))
    return f(o)


def leaves(o, out=None):
    if out is None:
        out = []
    if o.op == "ite":
        leaves(o.a[1], out)
        leaves(o.a[2], out)
    else:
        out.append(o)
    return out


ABRUPT = (ast.Return, ast.Raise, ast.Break, ast.Continue)


def contains(stmts, kinds):
    for s in stmts:
        stack = [s]
        while stack:
            x = stack.pop()
            if isinstance(x, kinds):
                return True
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
    return False


MUTATORS = {
    "append", "extend", "insert", "sort", "update", "add", "remove", "pop", "clear",
    "reverse", "setdefault", "discard", "appendleft",
}
PURE_STMT_METHODS = {"set_crs", "warn", "debug", "info", "warning", "error", "copy", "to_crs"}


def writes(fn):
    """Whether a nested function may change its arguments or what surrounds it."""
    own = {
        y.id for x in ast.walk(fn) if isinstance(x, (ast.Assign, ast.AnnAssign))
        for y in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(y, ast.Name)
    }
    for x in ast.walk(fn):
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            if root_name(x) not in own:
                return True
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
            if root_name(x.func.value) not in own:
                return True
        elif isinstance(x, ast.Nonlocal):
            return True
    return False


def root_name(t):
    while isinstance(t, (ast.Attribute, ast.Subscript, ast.Starred)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


WRITERS = {
    "numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.put_along_axis",
    "random.shuffle", "numpy.random.shuffle", "builtins.setattr", "setattr", "builtins.delattr", "delattr",
    "heapq.heappush", "heapq.heapify", "heapq.heappop", "bisect.insort",
}


def assigned_names(stmts):
    """Names bound or mutated anywhere in the statements (not in nested functions)."""
    out = []

    def root(t):
        while isinstance(t, (ast.Attribute, ast.Subscript, ast.Starred)):
            t = t.value
        return t.id if isinstance(t, ast.Name) else None

    def tgt(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        else:
            r = root(t)
            if r:
                out.append(r)

    def go(s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append(s.name)
            # nested functions may mutate captured containers
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    r = root(x.func.value)
                    if r:
                        out.append(r)
            return
        if isinstance(s, ast.Assign):
            for t in s.targets:
                tgt(t)
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            tgt(s.target)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            tgt(s.target)
        elif isinstance(s, ast.With):
            for i in s.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
            r = root(s.value.func.value)
            if r:
                out.append(r)
        for x in ast.walk(s) if isinstance(s, ast.stmt) and not hasattr(s, "body") else ast.iter_child_nodes(s):
            if isinstance(x, ast.NamedExpr):
                tgt(x.target)
            # containers handed to helpers may be mutated there
            if isinstance(x, ast.Call):
                for a in list(x.args) + [k.value for k in x.keywords]:
                    if isinstance(a, ast.Name):
                        out.append("?" + a.id)
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.stmt):
                go(x)
            elif isinstance(x, ast.ExceptHandler):
                for y in x.body:
                    go(y)
            elif isinstance(x, ast.match_case):
                for y in x.body:
                    go(y)

    for s in stmts:
        go(s)
    seen, res = set(), []
    for n in out:
        if n not in seen:
            seen.add(n)
            res.append(n)
    return res


class Clo:
    """A nested function or repository function used as a value."""
    table = {}

    def __init__(self, fn, env, module):
        self.fn, self.env, self.module = fn, env, module


def clo_node(fn, env, module):
    k = (id(fn), id(env.frame) if env is not None else 0)
    n = raw("clo", getattr(fn, "name", "<lambda>"), k)
    Clo.table[n] = Clo(fn, env, module)
    return n


class TooDeep(Exception):
    pass


class Evaluator:
    def __init__(self, program, keep=frozenset(), spec=None, budget=400000):
        self.p = program
        self.keep = keep          # qualified names kept as uninterpreted calls
        self.spec = spec or {}    # anchor -> Func of the reference
        self.specof = {}          # qualified name of a reference -> anchor
        self.canon = {}           # qualified name of a repository function -> anchor
        self.specconst = {}       # (module, name) -> (spec module, expression)
        self.types = {}
        self.exact = set()
        self.stack = []
        self.constmemo = {}
        self.budget = budget
        self.steps = 0
        self.opaques = []
        self.side = "code"
        self.inlined = set()
        self.visited = set()
        ext.CURRENT[0] = self

    # -------------------------------------------------------------- opaque

    def opq(self, why, node=None, env=None):
        loc = None
        if node is not None and env is not None and env.module is not None:
            loc = f"{env.module.relpath}:{getattr(node, 'lineno', '?')}"
        n = opaque(why, loc)
        self.opaques.append((why, loc))
        return n

    # -------------------------------------------------------------- types

    def ann_type(self, e, module, cls=None):
        if e is None:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Constant) and e.value is None:
            return ("none",)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.union([self.ann_type(e.left, module), self.ann_type(e.right, module)])
        if isinstance(e, ast.Subscript):
            d = dotted(e.value)
            r = d.split(".")[-1] if d else None
            el = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if r in ("Optional",):
                return self.ann_type(el[0], module)
            if r == "Union":
                return self.union([self.ann_type(x, module) for x in el])
            if r in ("List", "list", "Sequence", "Iterable", "Tuple", "tuple", "Set", "set"):
                return ("list", self.ann_type(el[0], module))
            if r in ("Annotated",):
                return self.ann_type(el[0], module)
            if r == "Literal":
                return ("str",)
            return None
        d = dotted(e)
        if d is None:
            return None
        r = self.p.resolve(module, d)
        if r is None:
            if d in ("int", "NonNegativeInt"):
                return ("int",)
            if d in ("float", "str", "bool", "list", "dict", "tuple"):
                return (d,) if d not in ("list", "tuple") else ("list", None)
            return None
        if r[0] == "class":
            return ("class", r[1].qual)
        if r[0] == "ext":
            x = r[1]
            if x.endswith("NonNegativeInt") or x.endswith("PositiveInt"):
                return ("int",)
            if x.split(".")[-1] in ("GeoDataFrame", "DataFrame"):
                return ("frame",)
            if x in ("typing.List",):
                return ("list", None)
            return ("ext", x)
        if r[0] == "const":
            return self.ann_type(r[3], r[1])
        return None

    def union(self, ts):
        ts = [t for t in ts if t is not None and t != ("none",)]
        out = []
        for t in ts:
            for u in (t[1] if t[0] == "union" else [t]):
                if u not in out:
                    out.append(u)
        if not out:
            return None
        if len(out) == 1:
            return out[0]
        # collapse to a common base class that is itself a member
        if all(t[0] == "class" for t in out):
            cs = [self.p.classes[t[1]] for t in out]
            for c in cs:
                if all(self.p.is_sub(d, c) for d in cs):
                    return ("class", c.qual)
        return ("union", tuple(out))

    def setty(self, n, t):
        self.types[n] = t
        if t == ("int",):
            INTSYMS.add(n)

    def typeof(self, n):
        if n in self.types:
            return self.types[n]
        t = self._typeof(n)
        self.types[n] = t
        return t

    def _typeof(self, n):
        op = n.op
        if op == "new":
            return ("class", n.a[0])
        if op == "attr":
            t = self.typeof(n.a[0])
            return self.field_type(t, n.a[1])
        if op == "index":
            t = self.typeof(n.a[0])
            if t and t[0] == "list" and n.a[1].op != "slice":
                return t[1]
            if t and t[0] == "list":
                return t
            if t == ("frame",) and not (n.a[1].op == "const"):
                return ("frame",)
            return None
        if op in ("lst", "arr"):
            return self.typeof(n.a[0])
        if op == "ite":
            a, b = self.typeof(n.a[1]), self.typeof(n.a[2])
            if a == b:
                return a
            if n.a[1] is NONE:
                return b
            if n.a[2] is NONE:
                return a
            return self.union([a, b]) if a and b else None
        if op == "update":
            return self.typeof(n.a[0])
        if op == "seq" and n.a[0]:
            t = self.typeof(n.a[0][0])
            return ("list", t)
        if op == "cm":
            b = n.a[1].a[1]
            if b.op == "seq" and b.a[0]:
                return ("list", self.typeof(b.a[0][0]))
            return ("list", None)
        if op == "call":
            name = n.a[0]
            f = self.spec.get(name) or self.p.funcs.get(name)
            if f is not None:
                return self.ann_type(f.node.returns, f.module)
            if name.startswith("tatc.") and "." in name:
                c, m = name.rsplit(".", 1)
                c = self.p.classes.get(c)
                if c is not None:
                    f = self.p.find_method(c, m)
                    if f is not None:
                        return self.ann_type(f.node.returns, f.module)
            if name.startswith("."):
                args = dict(n.a[1])
                ts = {}
                for c in self.p.classes.values():
                    if name[1:] in c.methods:
                        f = c.methods[name[1:]]
                        t = self.ann_type(f.node.returns, f.module)
                        ts[str(t)] = t
                if len(ts) == 1:
                    return list(ts.values())[0]
                if ts and all(t and t[0] in ("class", "union") for t in ts.values()):
                    return self.union(list(ts.values()))
            return ext.call_type(self, n)
        return None

    def field_type(self, t, name):
        if t is None:
            return None
        if t[0] == "union":
            ts = [self.field_type(x, name) for x in t[1]]
            ts = [x for x in ts if x]
            return self.union(ts) if ts else None
        if t[0] != "class":
            return None
        c = self.p.classes.get(t[1])
        if c is None:
            return None
        cands = [c] + self.p.subclasses(c)
        for k in cands:
            fs = self.p.all_fields(k)
            if name in fs:
                f = fs[name]
                return self.ann_type(f.ann, f.module)
            m = self.p.find_method(k, name)
            if m is not None and self.is_property(m):
                return self.ann_type(m.node.returns, m.module)
        return None

    def never_none(self, n):
        """A model field whose annotation does not admit None."""
        if n.op != "attr":
            return False
        t = self.typeof(n.a[0])
        if not t or t[0] != "class" or t[1] not in self.p.classes:
            return False
        seen = False
        for k in [self.p.classes[t[1]]] + self.p.subclasses(self.p.classes[t[1]]):
            f = self.p.all_fields(k).get(n.a[1])
            if f is None:
                return False
            src = ast.dump(f.ann) if f.ann is not None else "None"
            if any(w in src for w in ("None", "Optional", "Any'")):
                return False
            d = self.field_default(f)
            if d is NONE:
                return False
            seen = True
        return seen

    def is_property(self, f):
        for d in f.node.decorator_list:
            x = dotted(d.func if isinstance(d, ast.Call) else d)
            if x and x.split(".")[-1] in ("property", "cached_property", "computed_field"):
                return True
        return False

    def isframe(self, n):
        t = self.typeof(n)
        return t == ("frame",)

    def resolve_method(self, recv, name):
        """-> (Func, owner qual) | ('virtual', ...) | None"""
        t = self.typeof(recv)
        if t is None:
            return None
        ts = t[1] if t[0] == "union" else [t]
        if not all(x[0] == "class" for x in ts):
            ts = [x for x in ts if x[0] == "class"]
            if not ts:
                return None
        exact = recv.op == "new" or recv in self.exact
        impls = {}
        owner = None
        for x in ts:
            c = self.p.classes.get(x[1])
            if c is None:
                continue
            cands = [c] + ([] if exact else self.p.subclasses(c))
            for k in cands:
                f = self.p.find_method(k, name)
                if f is not None:
                    impls[f.qual] = f
                    if owner is None:
                        owner = k
        if not impls:
            return None
        if len(impls) == 1:
            f = list(impls.values())[0]
            return (f, owner)
        return ("virtual", impls, ts)

    # -------------------------------------------------------------- constants

    def global_value(self, r, env, node=None):
        kind = r[0]
        if kind == "func":
            return clo_node(r[1], None, r[1].module)
        if kind == "class":
            return raw("cls", r[1].qual)
        if kind == "module":
            return raw("global", r[1].name)
        if kind == "ext":
            return ext.value(r[1])
        if kind == "frozen":
            s = raw("sym", f"@import:{r[1].name}.{r[2]}")
            return s
        if kind == "classconst":
            c = r[1]
            if self.p.is_enum(c):
                return raw("enum", f"{c.qual}.{r[2]}")
            return self.eval(r[3], Env(c.module))
        if kind == "const":
            m, name, e = r[1], r[2], r[3]
            key = (m.name, name, self.side)
            if name in m.dynamic:
                s = raw("sym", f"@global:{m.name}.{name}")
                if s not in self.types:
                    self.types[s] = self.dynamic_type(m, e)
                return s
            if key in self.constmemo:
                v = self.constmemo[key]
                return v if v is not None else self.opq("cyclic constant", node, env)
            self.constmemo[key] = None
            sc = self.specconst.get((m.name, name)) if self.side == "spec" else None
            if sc is not None:
                m, e = sc
            v = self.eval(e, Env(m))
            self.constmemo[key] = v
            return v
        return self.opq("name", node, env)

    def dynamic_type(self, m, e):
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            r = self.p.resolve(m, d) if d else None
            if r and r[0] == "class":
                return ("class", r[1].qual)
            if r and r[0] == "func":
                t = self.ann_type(r[1].node.returns, r[1].module)
                if t:
                    return t
                for x in ast.walk(r[1].node):
                    if isinstance(x, ast.Return) and isinstance(x.value, ast.Call):
                        d = dotted(x.value.func)
                        q = self.p.resolve(r[1].module, d.split(".")[0]) if d else None
                        if q and q[0] == "class":
                            return ("class", q[1].qual)
        return None

    # -------------------------------------------------------------- expressions

    def eval(self, e, env):
        self.steps += 1
        if self.steps > self.budget:
            raise TooDeep("budget")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.opq("expr " + type(e).__name__, e, env)
        return m(e, env)

    def e_Constant(self, e, env):
        return const(e.value)

    def e_Name(self, e, env):
        c = env.find(e.id)
        if c is not None:
            return c.v
        return self.global_name(e.id, e, env)

    def global_name(self, name, e, env):
        if env.module is not None:
            r = self.p.lookup(env.module, name)
            if r is not None:
                return self.global_value(r, env, e)
        if name in ext.BUILTINS:
            return ext.value("builtins." + name)
        if name == "__file__":
            return sym("__file__")
        return self.opq("unresolved name " + name, e, env)

    def static(self, e, env):
        """Resolve an expression to a static entity if it denotes one."""
        if isinstance(e, ast.Name):
            if env.find(e.id) is not None:
                return None
            if env.module is None:
                return None
            r = self.p.lookup(env.module, e.id)
            if r is None and e.id in ext.BUILTINS:
                return ("ext", "builtins." + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.static(e.value, env)
            if b is None or b[0] in ("const", "frozen", "classconst", "func"):
                return None
            return self.p.member(b, e.attr)
        return None

    def e_Attribute(self, e, env):
        r = self.static(e, env)
        if r is not None:
            return self.global_value(r, env, e)
        b = self.static(e.value, env)
        if b is not None and b[0] == "class" and e.attr in ("model_validate", "model_construct", "model_fields"):
            return attr(raw("cls", b[1].qual), e.attr)
        v = self.eval(e.value, env)
        return self.get_attr(v, e.attr)

    def get_attr(self, v, name):
        if v.op == "ite" and name not in ("__dict__",):
            a, b = v.a[1], v.a[2]
            if a.op in ("new", "raise", "enum") or b.op in ("new", "raise", "enum"):
                return ite(v.a[0], self.get_attr(a, name), self.get_attr(b, name))
        if v.op == "enum" and name == "value":
            return self.enum_value(v)
        if v.op == "new":
            for k, x in v.a[1]:
                if k == name:
                    return x
        if self.isframe(v):
            if name not in ext.FRAME_ATTRS:
                return index(v, const(name))
        rm = self.resolve_method(v, name)
        if rm is not None and rm[0] != "virtual" and self.is_property(rm[0]):
            return self.call_func(rm[0], [v], {}, owner=rm[1])
        h = ext.ATTRS.get(name)
        if h is not None:
            r = h(self, v)
            if r is not None:
                return r
        return attr(v, name)

    def enum_value(self, v):
        q, n = v.a[0].rsplit(".", 1)
        c = self.p.classes[q]
        return self.eval(c.consts[n], Env(c.module))

    def e_Subscript(self, e, env):
        v = self.eval(e.value, env)
        i = self.eval(e.slice, env)
        if self.instdict(v, i):
            x = self.kept(v, i, env)
            return ite(ext.eq_(self, x, NONE), raw("raise", "KeyError"), x)
        return self.get_item(v, i)

    def instdict(self, v, i):
        return v.op == "attr" and v.a[1] == "__dict__" and i.op == "const" and i.a[0] == "str"

    def kept(self, v, key, env):
        """obj.__dict__.get(key), as the stores so far leave it (nothing kept is None)."""
        base = raw("call", ".get", (("key", key), ("self", v)))
        loc = raw("loc", v, "[]", key)

        def look(h):
            if h.op == "dict":
                return dict(h.a[0]).get(loc, base)
            if h.op == "ite":
                return ite(h.a[0], look(h.a[1]), look(h.a[2]))
            if h.op == "setitem":
                return h.a[2] if h.a[1] is loc else look(h.a[0])
            return base
        c = env.heap() if env is not None else None
        return look(c.v) if c is not None else base

    def get_item(self, v, i):
        return ext.get_item(self, v, i)

    def e_Slice(self, e, env):
        lo = self.eval(e.lower, env) if e.lower else NONE
        hi = self.eval(e.upper, env) if e.upper else NONE
        st = self.eval(e.step, env) if e.step else NONE
        return ext.mkslice(lo, hi, st)

    def e_Tuple(self, e, env):
        return self._display(e.elts, env)

    def e_List(self, e, env):
        return self._display(e.elts, env)

    def e_Set(self, e, env):
        return self._display(e.elts, env)

    def _display(self, elts, env):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(self.tolist(self.eval(x.value, env)))
            else:
                self.escape(x, env)
                parts.append(seq(self.eval(x, env)))
        return cat(*parts) if parts else NIL

    def escape(self, x, env):
        if isinstance(x, ast.Name):
            c = env.find(x.id)
            if c is not None and c.v.op in ("seq", "cm", "cat", "dict", "update", "lst"):
                c.esc = True

    def tolist(self, v):
        return ext.tolist(self, v)

    def e_Dict(self, e, env):
        out = NONE
        d = dict_([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, env)
                d = ext.dict_merge(self, d, x)
            else:
                self.escape(v, env)
                d = update(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, env)
                    parts.append(ext.fmt(x, spec))
                elif v.conversion == 114:
                    parts.append(call("repr", (("0", x),)))
                else:
                    parts.append(ext.tostr(x))
        return concat(*parts)

    def e_FormattedValue(self, e, env):
        return ext.tostr(self.eval(e.value, env))

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        return self.opq("starred", e, env)

    def e_Await(self, e, env):
        return self.opq("await", e, env)

    def e_IfExp(self, e, env):
        c = self.cond(e.test, env)
        if c is TRUE:
            return self.eval(e.body, env)
        if c is FALSE:
            return self.eval(e.orelse, env)
        return ite(c, self.eval(e.body, env), self.eval(e.orelse, env))

    def cond(self, e, env):
        if isinstance(e, ast.BoolOp):
            xs = []
            for v in e.values:
                c = self.cond(v, env)
                xs.append(c)
                if isinstance(e.op, ast.And) and c is FALSE:
                    break
                if isinstance(e.op, ast.Or) and c is TRUE:
                    break
            return and_(*xs) if isinstance(e.op, ast.And) else or_(*xs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, env))
        return truth(ext.untruth(self, self.eval(e, env)))

    def e_BoolOp(self, e, env):
        vs = [self.eval(v, env) for v in e.values]
        if all(V.isbool(v) for v in vs):
            return and_(*vs) if isinstance(e.op, ast.And) else or_(*vs)
        r = vs[-1]
        for v in reversed(vs[:-1]):
            t = truth(ext.untruth(self, v))
            r = ite(t, r, v) if isinstance(e.op, ast.And) else ite(t, v, r)
        return r

    def e_UnaryOp(self, e, env):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, env))
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return not_(truth(v)) if V.isbool(v) else call("invert", (("0", v),))

    def e_BinOp(self, e, env):
        a, b = self.eval(e.left, env), self.eval(e.right, env)
        return ext.binop(self, type(e.op).__name__, a, b)

    def e_Compare(self, e, env):
        l = self.eval(e.left, env)
        out = []
        for op, r in zip(e.ops, e.comparators):
            r = self.eval(r, env)
            if isinstance(op, (ast.In, ast.NotIn)) and self.instdict(r, l):
                b = V.not_(ext.eq_(self, self.kept(r, l, env), NONE))
                out.append(b if isinstance(op, ast.In) else V.not_(b))
            else:
                out.append(ext.compare(self, type(op).__name__, l, r))
            l = r
        return and_(*out)

    def e_Lambda(self, e, env):
        return self.lam(e, env, env.module)

    def lam(self, fn, env, module):
        """Function value -> lam node."""
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg or a.kwonlyargs:
            return self.opq("lambda signature", fn, env)
        k = len(names) - len(a.defaults)
        req = names[:k]
        syms = [fresh("p") for _ in req]
        sub_env = Env(module, None, env, env.cls if env else None)
        for n, s in zip(req, syms):
            sub_env.vars[n] = Cell(s)
        for n, d in zip(names[k:], a.defaults):
            sub_env.vars[n] = Cell(self.eval(d, env))
        if isinstance(fn, ast.Lambda):
            body = self.eval(fn.body, sub_env)
        else:
            o = self.exec_body(fn, sub_env)
            body, _, _ = self.split_outcome(o)
        return ext.mklam(self, syms, body)

    def funcval(self, v):
        """Closure node -> lam node (for functions passed as values)."""
        if v.op == "clo":
            c = Clo.table[v]
            if isinstance(c.fn, ast.FunctionDef):
                return self.lam(c.fn, c.env, c.module)
            f = c.fn
            names = f.params()
            n = len(f.node.args.posonlyargs + f.node.args.args) - len(f.node.args.defaults)
            syms = [fresh("p") for _ in range(n)]
            return ext.mklam(self, syms, self.call_func(f, syms, {}))
        if v.op in ("dict", "seq", "update", "ite", "cat", "lst") and V.has(v, lambda z: z.op == "clo"):
            m = {}
            todo = [v]
            while todo:
                x = todo.pop()
                if x.op == "clo":
                    m[x] = self.funcval(x)
                elif x.op in ("dict", "seq", "update", "ite", "cat", "lst"):
                    todo.extend(V.kids(x))
            return substitute(v, m)
        return v

    # comprehensions

    def e_ListComp(self, e, env):
        return self.comp(e.generators, env, lambda en: seq(self.elt(e.elt, en)))

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def elt(self, x, en):
        return self.eval(x, en)

    def e_DictComp(self, e, env):
        pairs = self.comp(
            e.generators, env,
            lambda en: seq(seq(self.eval(e.key, en), self.eval(e.value, en))),
        )
        return ext.dict_from_pairs(self, pairs)

    def comp(self, gens, env, leaf):
        def go(k, en):
            if k == len(gens):
                return leaf(en)
            g = gens[k]
            xs = self.tolist(self.eval(g.iter, en))

            def body(x):
                en2 = en.fork()
                en2.frame = en2
                self.bind_target(g.target, x, en2)
                cs = [self.cond(c, en2) for c in g.ifs]
                c = and_(*cs) if cs else TRUE
                if c is FALSE:
                    return NIL
                return V.lite(c, go(k + 1, en2), NIL)

            return self.iter_typed(xs, body)

        e2 = Env(env.module, env.fn, env, env.cls)
        return go(0, e2)

    def iter_typed(self, xs, f):
        return iterate(xs, f)

    # -------------------------------------------------------------- calls

    def e_Call(self, e, env):
        f = e.func
        # arguments
        args, kw, bad = [], {}, False
        argcells = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.tolist(self.eval(a.value, env))
                w = ext.width(v)
                if w is not None:
                    v = seq(*[index(v, num(j)) for j in range(w)])
                if v.op == "seq":
                    args.extend(v.a[0])
                    argcells.extend([None] * len(v.a[0]))
                elif v.op == "cat" or v.op in ("cm", "lst", "ite"):
                    args.append(raw("star", v))
                    argcells.append(None)
                else:
                    args.append(raw("star", v))
                    argcells.append(None)
            else:
                args.append(self.eval(a, env))
                argcells.append(env.find(a.id) if isinstance(a, ast.Name) else None)
        kwcells = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, env)
                items = ext.dict_items(v)
                if items is None:
                    bad = True
                else:
                    for kk, vv in items:
                        kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, env)
                if isinstance(k.value, ast.Name):
                    kwcells[k.arg] = env.find(k.value.id)
        if bad:
            if isinstance(f, ast.Attribute) and f.attr == "model_construct" and not args and len(e.keywords) == 1:
                return call(".model_construct", (("self", self.eval(f.value, env)), ("obj", v)))
            return self.opq("call with unknown keywords", e, env)
        r = self.static(f, env)
        if r is not None and r[0] == "ext":
            if r[1] in WRITERS and e.args:
                v = call(r[1], tuple((str(i), a) for i, a in enumerate(args)))
                self.changed(e.args[0], env, e)
                return v
            for x in e.keywords:
                if x.arg == "out":
                    self.changed(x.value, env, e)
            if r[1].split(".")[-1] in ("exec", "eval") and r[1].split(".")[0] in ("exec", "eval", "builtins"):
                en = env
                while en is not None:
                    for n, c in en.vars.items():
                        if n[0] != "#":
                            c.v = self.opq("exec", e, env)
                    en = en.parent
                return self.opq("exec", e, env)
        if r is not None:
            v = self.call_static(r, args, kw, env, e, argcells, kwcells)
            if v is not None:
                return v
        if isinstance(f, ast.Attribute):
            # super().method(...)
            if (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name)
                and f.value.func.id == "super"
            ):
                return self.call_super(f.attr, args, kw, env, e)
            recv = self.eval(f.value, env)
            return self.call_method(recv, f.attr, args, kw, env, e, argcells, kwcells)
        fv = self.eval(f, env)
        return self.apply(fv, args, kw, env, e, argcells, kwcells)

    def call_super(self, name, args, kw, env, e):
        me = env.find("self")
        fn = env.fn
        en = env
        while fn is None and en is not None:
            en = en.parent
            fn = en.fn if en else None
        if me is None or fn is None or fn.cls is None:
            return self.opq("super", e, env)
        t = self.typeof(me.v)
        c = self.p.classes.get(t[1]) if t and t[0] == "class" else fn.cls
        m = self.p.mro(c)
        ks = [k.qual for k in m]
        i = ks.index(fn.cls.qual) if fn.cls.qual in ks else 0
        for k in m[i + 1:]:
            if name in k.methods:
                return self.call_func(k.methods[name], [me.v] + args, kw, inline=True)
        return call("super." + name, tuple([("self", me.v)] + [(str(i), a) for i, a in enumerate(args)] + list(kw.items())))

    def call_static(self, r, args, kw, env, e, argcells=(), kwcells={}):
        if r[0] == "func":
            f = r[1]
            return self.call_func(f, args, kw, env=env, node=e, argcells=argcells, kwcells=kwcells)
        if r[0] == "class":
            return self.construct(r[1], args, kw, env, e)
        if r[0] == "ext":
            return ext.call_ext(self, r[1], args, kw, env, e)
        if r[0] in ("const", "frozen"):
            return None
        return None

    def apply(self, fv, args, kw, env=None, e=None, argcells=(), kwcells={}):
        if fv.op == "ite":
            return ite(
                fv.a[0], self.apply(fv.a[1], args, kw, env, e), self.apply(fv.a[2], args, kw, env, e)
            )
        if fv.op == "lam":
            b = fv.a[0]
            if b.a[0] == len(args) and not kw:
                return instantiate(b, list(args))
            return self.opq("lambda arity", e, env)
        if fv.op == "clo":
            c = Clo.table[fv]
            if isinstance(c.fn, ast.FunctionDef):
                parent = c.env
                # the defining frame, in its current state
                en = env
                while en is not None:
                    if c.env is not None and en.frame is c.env.frame:
                        parent = en
                        break
                    en = en.parent
                return self.inline_local(c, parent, args, kw, env, e, argcells, kwcells)
            return self.call_func(c.fn, args, kw, env=env, node=e)
        if fv.op == "cls":
            return self.construct(self.p.classes[fv.a[0]], args, kw, env, e)
        if fv.op == "extfn":
            return ext.call_ext(self, fv.a[0], args, kw, env, e)
        if fv.op == "attr":
            return self.call_method(fv.a[0], fv.a[1], args, kw, env, e)
        if fv.op == "partial":
            return self.apply(fv.a[0], list(fv.a[1]) + list(args), {**dict(fv.a[2]), **kw}, env, e)
        if fv.op == "raise":
            return fv
        return call("apply", tuple([("f", fv)] + [(str(i), a) for i, a in enumerate(args)] + sorted(kw.items())))

    def call_method(self, recv, name, args, kw, env=None, e=None, argcells=(), kwcells={}):
        if recv.op == "raise":
            return recv
        if recv.op == "ite" and (
            recv.a[1].op in ("new", "seq", "cm", "cat", "raise", "dict") or recv.a[2].op in ("new", "seq", "cm", "cat", "raise", "dict")
        ):
            return ite(
                recv.a[0],
                self.call_method(recv.a[1], name, args, kw, env, e),
                self.call_method(recv.a[2], name, args, kw, env, e),
            )
        if recv.op == "cls":
            c = self.p.classes[recv.a[0]]
            f = self.p.find_method(c, name)
            if f is not None:
                return self.call_func(f, args, kw, env=env, node=e)
        rm = self.resolve_method(recv, name)
        if rm is not None:
            if rm[0] == "virtual":
                return self.virtual(recv, name, rm, args, kw, env, e)
            f, owner = rm
            if any(dotted(d) == "staticmethod" for d in f.node.decorator_list):
                return self.call_func(f, args, kw, owner=owner, env=env, node=e)
            return self.call_func(
                f, [recv] + list(args), kw, owner=owner, env=env, node=e,
                argcells=[None] + list(argcells), kwcells=kwcells)
        # a method defined by repository classes only on some members of the type
        return ext.call_method(self, recv, name, args, kw, env, e)

    def virtual(self, recv, name, rm, args, kw, env, e):
        impls, ts = rm[1], rm[2]
        # bind to the first implementation's signature for canonical arguments
        f = list(impls.values())[0]
        b = self.bind(f, [recv] + list(args), kw, env, e)
        if b is None:
            return self.opq("virtual arguments", e, env)
        bases = [c for c in (self.p.classes.get(t[1]) for t in ts) if c]
        if len(bases) == 1 and self.p.find_method(bases[0], name) is not None:
            q = bases[0].qual + "." + name
            return call(q, tuple((k, v) for k, v in b.items()))
        extra = {k: v for k, v in b.items() if k != "self"}
        # drop arguments equal to a default shared by every implementation that has them
        return call("." + name, tuple([("self", recv)] + [(k, v) for k, v in extra.items() if v is not NONE]))

    def bind(self, f, args, kw, env=None, e=None):
        """Bind call arguments to parameter names, filling in defaults."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = dict(kw)
        pos = list(args)
        if any(x.op == "star" for x in pos):
            return None
        if len(pos) > len(names):
            if a.vararg is None:
                return None
            out["*" + a.vararg.arg] = seq(*pos[len(names):])
            pos = pos[: len(names)]
        elif a.vararg is not None:
            out["*" + a.vararg.arg] = NIL
        for n, v in zip(names, pos):
            out[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                return None
        if a.kwarg is not None:
            out["**" + a.kwarg.arg] = dict_([(const(k), v) for k, v in extra.items()])
        menv = Env(f.module)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in out:
                out[n] = self.default(d, menv)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in out and d is not None:
                out[n] = self.default(d, menv)
        if any(n not in out for n in names + kwonly):
            return None
        order = names + kwonly
        return {k: out[k] for k in order + [k for k in out if k not in order]}

    def default(self, d, env):
        v = self.eval(d, env)
        if any(s.a[0].startswith("@global:") for s in v.syms):
            return raw("atdef", v)
        return v

    def anchor_of(self, f, owner=None):
        """Name of the reference that governs calls of f, if there is one."""
        q = self.specof.get(f.qual)
        if q is not None:
            return q
        if f.cls is None:
            return self.canon.get(f.qual)
        for k in self.p.mro(owner or f.cls):
            q = k.qual + "." + f.name
            if q in self.spec:
                return q
        return None

    def reposition(self, f, b):
        """Arguments bound to another signature, by position."""
        names = f.params()
        vals = [v for k, v in b.items() if not k.startswith("*")]
        if len(vals) < len(names):
            a = f.node.args
            if len(names) - len(vals) > len(a.defaults):
                return None
            return vals
        return vals[: len(names)]

    def kept_call(self, f, b, anchor):
        g = self.spec[anchor]
        names = g.params()
        items = list(b.items())
        if any(k.startswith("*") for k, _ in items):
            return None
        if len(items) < len(names):
            a = g.node.args
            ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            for n in names[len(items):]:
                if n not in ds:
                    return None
                items.append((n, self.default(ds[n], Env(g.module))))
        if len(items) > len(names):
            # further optional parameters must hold their defaults
            a = f.node.args
            fn = f.params()
            ds = dict(zip(fn[len(fn) - len(a.defaults):], a.defaults)) if not a.kwonlyargs else {}
            for k, v in items[len(names):]:
                if k not in ds or self.default(ds[k], Env(f.module)) is not v:
                    return None
            items = items[: len(names)]
        return call(anchor, tuple((n, v) for n, (_, v) in zip(names, items)))

    def modenv(self, m):
        return Env(m)

    def call_func(self, f, args, kw, owner=None, env=None, node=None, argcells=(), kwcells={}, inline=False):
        is_static = any(dotted(d) == "staticmethod" for d in f.node.decorator_list)
        if any(dotted(d) == "classmethod" for d in f.node.decorator_list):
            args = [raw("cls", (owner or f.cls).qual)] + list(args)
        qual = f.qual
        if owner is not None and f.cls is not None:
            qual = owner.qual + "." + f.name
        anchor = self.anchor_of(f, owner)
        if anchor is not None:
            qual = anchor
            if self.side == "spec" and f.qual not in self.specof:
                b = self.bind(f, args, kw, env, node)
                if b is None:
                    return self.opq(f"arguments of {f.name}", node, env)
                f = self.spec[anchor]
                args, kw = self.reposition(f, b), {}
                argcells = ()
                if args is None:
                    return self.opq(f"arguments of {f.name}", node, env)
        b = self.bind(f, args, kw, env, node)
        if b is None:
            return self.opq(f"arguments of {f.name}", node, env)
        if not inline and anchor is not None and anchor in self.keep:
            c = self.kept_call(f, b, anchor)
            if c is not None:
                return c
        if qual in self.stack or len(self.stack) > 24:
            return call(qual, tuple(b.items()))
        self.inlined.add(qual)
        cells = {}
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        for n, c in zip(names, argcells):
            if c is not None:
                cells[n] = c
        for n, c in kwcells.items():
            if c is not None:
                cells[n] = c
        return self.inline(f, b, qual, cells, env)

    def inline(self, f, b, qual, cells, env):
        sub_env = Env(f.module, f, None, f.cls)
        self.stack.append(qual)
        try:
            outs = self.enter(f, b, sub_env, cells, env)
            o = self.exec_body(f.node, sub_env, outs)
        finally:
            self.stack.pop()
        v, heap, outv = self.split_outcome(o)
        self.leave(env, heap, outs, outv, cells)
        return v

    def enter(self, f, b, sub_env, cells, env):
        outs = []
        for k, v in b.items():
            n = k.lstrip("*")
            c = cells.get(n)
            cell = Cell(v, c.roots if c else frozenset(), c.esc if c else False)
            if c is None and v.op in ("sym", "attr", "index") and v.syms:
                cell.roots = frozenset(s for s in v.syms if not s.a[0].startswith("%"))
            sub_env.vars[n] = cell
            if c is not None:
                sub_env.vars["#out:" + n] = cell
                outs.append(n)
        h = env.heap() if env is not None else None
        sub_env.vars["#heap"] = Cell(h.v if h is not None else dict_([]))
        if is_gen(f.node if hasattr(f, "node") else f):
            sub_env.vars["#yield"] = Cell(NIL)
        return outs

    def leave(self, env, heap, outs, outv, cells):
        if env is not None:
            h = env.heap()
            if h is not None and heap is not None and heap is not h.v:
                h.v = heap
        for n, v in zip(outs, outv or ()):
            if cells[n].v is not v and v is not None:
                if cells[n].esc:
                    cells[n].v = self.opq("aliased mutation")
                else:
                    cells[n].v = v

    def inline_local(self, c, parent, args, kw, env, e, argcells=(), kwcells={}):
        fn = c.fn
        from .pyload import Func
        f = Func("<local>." + fn.name, fn, c.module)
        b = self.bind(f, args, kw, env, e)
        if b is None:
            return self.opq("arguments of " + fn.name, e, env)
        if len(self.stack) > 24 or self.stack.count("<local>." + fn.name) > 0:
            return call("<local>." + fn.name, tuple(b.items()))
        sub_env = Env(c.module, None, parent, parent.cls if parent else None)
        self.stack.append("<local>." + fn.name)
        try:
            cells = {n: x for n, x in kwcells.items() if x is not None}
            cells.update(
                (n.arg, x) for n, x in zip(fn.args.posonlyargs + fn.args.args, argcells) if x is not None
            )
            outs = []
            for k, v in b.items():
                n = k.lstrip("*")
                x = cells.get(n)
                cell = sub_env.vars[n] = Cell(v, x.roots, x.esc, x.views, x.holds) if x else Cell(v)
                if x is not None:
                    sub_env.vars["#out:" + n] = cell
                    outs.append(n)
            if is_gen(fn):
                sub_env.vars["#yield"] = Cell(NIL)
            # defaults of nested functions see the enclosing scope
            a = fn.args
            names = [x.arg for x in a.posonlyargs + a.args]
            for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                if n not in kw and names.index(n) >= len(args):
                    sub_env.vars[n] = Cell(self.eval(d, parent))
            outer = {}
            en = parent
            while en is not None:
                for n, x in en.vars.items():
                    if n[0] == "#":
                        continue
                    outer.setdefault(id(x), (x, x.v))
                en = en.parent
            o = self.exec_body(fn, sub_env, outs)
        finally:
            self.stack.pop()
        v, _, outv = self.split_outcome(o)
        # variables of the enclosing function are not split by paths of this one
        branching = any(
            isinstance(x, (ast.If, ast.For, ast.While, ast.Try, ast.IfExp, ast.BoolOp, ast.Match))
            for x in ast.walk(fn)
        )
        if branching:
            for x, old in outer.values():
                if x.v is not old:
                    x.v = self.opq("changed on some paths of " + fn.name, e, env)
        self.leave(None, None, outs, outv, cells)
        return v

    def split_outcome(self, o):
        """Outcome tree -> (value tree, heap tree, out-cell trees)."""
        v = map_leaves(o, lambda l: l.a[0] if l.op == "ret" else l)
        rets = [l for l in leaves(o) if l.op == "ret"]
        if not rets:
            return v, None, None
        h = map_leaves(o, lambda l: l.a[1] if l.op == "ret" else rets[0].a[1])
        k = len(rets[0].a[2])
        outs = [
            map_leaves(o, lambda l, i=i: l.a[2][i] if l.op == "ret" else rets[0].a[2][i])
            for i in range(k)
        ]
        return v, h, outs

    def construct(self, c, args, kw, env, e):
        if self.p.is_enum(c):
            if len(args) == 1 and args[0].op == "enum":
                return args[0]
            return call("enum:" + c.qual, tuple((str(i), a) for i, a in enumerate(args)))
        if self.p.is_model(c):
            fields = self.p.all_fields(c)
            out = {}
            if args:
                return self.opq("positional model arguments", e, env)
            for k, v in kw.items():
                if k not in fields:
                    continue  # pydantic ignores unknown keywords
                out[k] = v
            for n, f in fields.items():
                if n not in out:
                    d = self.field_default(f)
                    out[n] = d if d is not None else raw("missing")
            return raw("new", c.qual, tuple(sorted(out.items())))
        if any(b.endswith("Exception") or b.endswith("Error") for b in self.p.ext_bases(c)):
            return raw("exc", c.name)
        init = self.p.find_method(c, "__init__")
        if init is None and any(b == "NamedTuple" or b.endswith(".NamedTuple") for b in self.p.ext_bases(c)):
            fields = list(self.p.all_fields(c))
            out = dict(zip(fields, args))
            out.update(kw)
            return raw("new", c.qual, tuple(sorted(out.items())))
        deco = [dotted(d.func if isinstance(d, ast.Call) else d) for d in c.node.decorator_list]
        if any(d and d.split(".")[-1] == "dataclass" for d in deco):
            fields = self.p.all_fields(c)
            out = dict(zip(fields, args))
            out.update(kw)
            for n, f in fields.items():
                if n not in out and f.default is not None:
                    out[n] = self.eval(f.default, Env(f.module))
            return raw("new", c.qual, tuple(sorted(out.items())))
        return self.opq("constructor of " + c.name, e, env)

    def field_default(self, f):
        d = f.default
        if d is None:
            return None
        env = Env(f.module)
        if isinstance(d, ast.Call):
            q = dotted(d.func)
            r = self.p.resolve(f.module, q) if q else None
            if r and r[0] == "ext" and r[1].split(".")[-1] == "Field":
                if d.args:
                    a = d.args[0]
                    if isinstance(a, ast.Constant) and a.value is Ellipsis:
                        return None
                    return self.eval(a, env)
                for k in d.keywords:
                    if k.arg == "default":
                        if isinstance(k.value, ast.Constant) and k.value.value is Ellipsis:
                            return None
                        return self.eval(k.value, env)
                    if k.arg == "default_factory":
                        return self.apply(self.eval(k.value, env), [], {}, env, k.value)
                return None
        if isinstance(d, ast.Constant) and d.value is Ellipsis:
            return None
        return self.eval(d, env)

    # -------------------------------------------------------------- statements

    def exec_body(self, fn, env, outs=()):
        if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant):
            body = fn.body[1:]
        else:
            body = fn.body
        gen = "#yield" in env.vars

        def ret(en, v):
            if gen:
                v = en.vars["#yield"].v
            h = en.vars.get("#heap")
            return raw(
                "ret", v, h.v if h is not None else dict_([]),
                tuple(en.vars["#out:" + n].v for n in outs),
            )

        k = K(lambda en: ret(en, NONE), ret)
        return self.block(body, 0, env, k)

    def block(self, stmts, i, env, k):
        while i < len(stmts):
            s = stmts[i]
            self.steps += 1
            if self.steps > self.budget:
                raise TooDeep("budget")
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                # unknown statement: every name it may bind becomes opaque
                for n in assigned_names([s]):
                    n = n.lstrip("?")
                    if env.find(n) is not None:
                        env.vars[n] = Cell(self.opq("stmt " + type(s).__name__, s, env))
                if contains([s], ABRUPT):
                    return self.opq("stmt " + type(s).__name__, s, env)
                i += 1
                continue
            r = m(s, env, stmts, i, k)
            if isinstance(r, Env):
                env = r
                i += 1
                continue
            return r
        return k.next(env)

    def s_Pass(self, s, env, st, i, k):
        return env

    def s_Assert(self, s, env, st, i, k):
        return env

    def s_Import(self, s, env, st, i, k):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            env.vars[n] = Cell(raw("global", full) if full in self.p.modules else ext.value(full))
        return env

    def s_ImportFrom(self, s, env, st, i, k):
        base = self.p._import_base(env.module, s)
        for a in s.names:
            n = a.asname or a.name
            if base in self.p.modules:
                r = self.p.lookup(self.p.modules[base], a.name)
                if r is None and f"{base}.{a.name}" in self.p.modules:
                    r = ("module", self.p.modules[f"{base}.{a.name}"])
                env.vars[n] = Cell(self.global_value(r, env, s) if r else self.opq("import", s, env))
            else:
                env.vars[n] = Cell(ext.value(f"{base}.{a.name}"))
        return env

    def s_Global(self, s, env, st, i, k):
        env.nonlocals = env.nonlocals | set(s.names)
        return env

    def s_Nonlocal(self, s, env, st, i, k):
        env.nonlocals = env.nonlocals | set(s.names)
        return env

    def s_Delete(self, s, env, st, i, k):
        for t in s.targets:
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                self.changed(t.value, env, s)
        return env

    def s_FunctionDef(self, s, env, st, i, k):
        v = clo_node(s, env, env.module)
        for d in reversed(getattr(s, "decorator_list", [])):
            if not self.p.transparent(env.module, d):
                v = self.apply(self.eval(d, env), [v], {}, env, s)
        env.vars[s.name] = Cell(v)
        return env

    def s_ClassDef(self, s, env, st, i, k):
        env.vars[s.name] = Cell(self.opq("local class", s, env))
        return env

    def alias(self, e, env):
        """Cell or roots an expression refers to."""
        if isinstance(e, ast.Name):
            c = env.find(e.id)
            return c
        return None

    def roots(self, e, env):
        if isinstance(e, ast.Name):
            c = env.find(e.id)
            return c.roots if c is not None else frozenset()
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            if isinstance(e, ast.Subscript) and (isinstance(e.slice, ast.Slice) or isinstance(e.slice, (ast.List, ast.Compare))):
                return frozenset()  # list slices, column selections and masks copy
            return self.roots(e.value, env)
        if isinstance(e, ast.IfExp):
            return self.roots(e.body, env) | self.roots(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            out = frozenset()
            for v in e.values:
                out |= self.roots(v, env)
            return out
        return frozenset()

    VIEWS = {"to_numpy", "view", "ravel", "reshape", "squeeze", "transpose", "setdefault", "get"}

    def views(self, e, env, whole=False):
        """Variables whose storage the value of an expression may share.  A plain
        name is the same cell already, and counts only inside something else."""
        if isinstance(e, ast.Name):
            c = env.find(e.id) if whole else None
            return c.views | {e.id} if c is not None else frozenset()
        if isinstance(e, ast.Attribute):
            return self.views(e.value, env, True)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, (ast.Slice, ast.List, ast.Compare)):
                return frozenset()
            return self.views(e.value, env, True)
        if isinstance(e, ast.IfExp):
            return self.views(e.body, env, True) | self.views(e.orelse, env, True)
        if isinstance(e, ast.NamedExpr):
            return self.views(e.value, env, True)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.views(x, env, True) for x in e.values])
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in self.VIEWS:
                return self.views(f.value, env, True)
            if (dotted(f) or "").split(".")[-1] in ("asarray", "iter", "atleast_1d", "next") and e.args:
                return self.views(e.args[0], env, True)
            if isinstance(f, ast.Lambda) or isinstance(f, ast.Name) and env.find(f.id) is not None:
                # a local function may hand back what it was given
                return frozenset().union(*[self.views(x, env, True) for x in e.args])
        return frozenset()

    def holds(self, e, env):
        """Variables whose storage the contents of a container display share."""
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return frozenset().union(*[self.views(x, env, True) | self.holds(x, env) for x in e.elts])
        if isinstance(e, ast.Dict):
            return frozenset().union(*[self.views(x, env, True) | self.holds(x, env) for x in e.values])
        if isinstance(e, ast.Name):
            c = env.find(e.id)
            return c.holds if c is not None else frozenset()
        if isinstance(e, ast.Call) and (dotted(e.func) or "") in (
            "list", "tuple", "iter", "reversed", "sorted", "zip", "enumerate", "dict", "set"
        ):
            return frozenset().union(*[self.holds(x, env) for x in e.args])
        return frozenset()

    def changed(self, e, env, node):
        """What an expression denotes is changed in a way not modelled."""
        for n in self.views(e, env, True) | self.holds(e, env):
            d = env.find(n)
            if d is not None and d.v.op not in ("num", "const", "clo"):
                d.v = self.opq("changed in place", node, env)

    def spoil(self, c, env, node, deep=False):
        """What shares storage with a value that has just been changed."""
        for n in c.views | c.holds if deep else c.views:
            d = env.find(n)
            if d is not None and d is not c and not (d.v.op == "sym" and d.v.a[0] == "self"):
                d.v = self.opq("changed through another name", node, env)

    def s_Assign(self, s, env, st, i, k):
        v = self.eval(s.value, env)
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.set_name(t.id, v, env, s.value)
            elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(
                t.elts
            ) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + s.value.elts):
                # simultaneous assignment; values already evaluated
                vals = v.a[0] if v.op == "seq" and len(v.a[0]) == len(t.elts) else None
                if vals is None:
                    self.assign(t, v, env)
                else:
                    cells = [self.alias(x, env) for x in s.value.elts]
                    new = [
                        cells[j] or Cell(vals[j], self.roots(x, env), False, self.views(x, env), self.holds(x, env))
                        for j, x in enumerate(s.value.elts)
                    ]
                    for x, y, c in zip(t.elts, vals, new):
                        if isinstance(x, ast.Name) and x.id not in env.nonlocals:
                            env.vars[x.id] = c
                        else:
                            self.assign(x, y, env)
            else:
                self.assign(t, v, env)
        return self.guard(v, env, st, i, k)

    def guard(self, v, env, st, i, k):
        """Continue only where evaluating v did not raise."""
        if v.op == "raise":
            return v
        if v.op == "ite" and any(l.op == "raise" for l in leaves(v)):
            rest = self.block(st, i + 1, env, k)
            c = raise_cond(v)
            return map_leaves(c, lambda l: l if l.op == "raise" else rest)
        return env

    def set_name(self, name, v, env, src=None):
        if name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is not None:
                e.vars[name].v = v
                return
            self.effect(env, raw("loc", raw("global", env.module.name), ".", const(name)), v)
            return
        if src is not None and isinstance(src, ast.Name):
            c = env.find(src.id)
            if c is not None:
                env.vars[name] = c
                return
        r = self.roots(src, env) if src is not None else frozenset()
        if src is None:
            env.vars[name] = Cell(v, r)
        else:
            env.vars[name] = Cell(v, r, False, self.views(src, env), self.holds(src, env))

    def assign(self, t, v, env, src=None):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, env, src)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.store(t, v, env)
        else:
            self.opq("assign target", t, env)

    bind_target = assign

    def unpack(self, t, v, env):
        v = ext.unpackable(self, v)
        n = len(t.elts)
        star = [j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if not star:
            for j, x in enumerate(t.elts):
                self.assign(x, self.get_item(v, num(j)), env)
            return
        s = star[0]
        for j, x in enumerate(t.elts):
            if j < s:
                self.assign(x, self.get_item(v, num(j)), env)
            elif j > s:
                self.assign(x, self.get_item(v, num(j - n)), env)
            else:
                after = n - s - 1
                self.assign(
                    x.value,
                    self.get_item(v, ext.mkslice(num(s) if s else NONE, num(-after) if after else NONE, NONE)),
                    env,
                )

    def effect(self, env, loc, v):
        h = env.heap()
        if h is not None:
            h.v = update_heap(h.v, loc, v)

    def store(self, t, v, env):
        """Attribute/subscript assignment through a root variable."""
        path = []
        x = t
        while isinstance(x, (ast.Attribute, ast.Subscript)):
            path.append(x)
            x = x.value
        path.reverse()
        if not isinstance(x, ast.Name):
            base = self.eval(x, env)
            self.effect(env, raw("loc", base, "?", NONE), v)
            self.changed(x, env, t)
            return
        c = env.find(x.id)
        if c is None:
            r = self.static(x, env)
            self.effect(
                env, raw("loc", raw("global", str(r[1].name if r and r[0] == "module" else x.id)), ".",
                         const(getattr(path[-1], "attr", "?"))), v)
            return
        if c.roots:
            # writing through something the caller can see
            key = path[-1]
            base = self.eval(path[-1].value, env)
            kn = const(key.attr) if isinstance(key, ast.Attribute) else self.eval(key.slice, env)
            loc = raw("loc", base, "." if isinstance(key, ast.Attribute) else "[]", kn)
            self.effect(env, loc, v)
            if len(path) == 1 and c.v.op not in ("sym",):
                pass
        if c.esc:
            c.v = self.opq("aliased mutation", t, env)
            return
        if c.v.op == "sym" and c.roots and c.v.a[0] in ("self",):
            return
        c.v = self.set_path(c.v, path, v, env)
        if c.views or c.holds:
            self.spoil(c, env, t, len(path) > 1)

    def set_path(self, base, path, v, env):
        p = path[0]
        if len(path) > 1:
            inner = (
                self.get_attr(base, p.attr) if isinstance(p, ast.Attribute)
                else self.get_item(base, self.eval(p.slice, env))
            )
            if isinstance(p, ast.Attribute) and p.attr in ("loc", "iloc", "at", "iat"):
                return raw("setloc", base, p.attr, self.eval(path[1].slice, env), v)
            v = self.set_path(inner, path[1:], v, env)
        if isinstance(p, ast.Attribute):
            if self.isframe(base):
                return update(base, const(p.attr), v)
            if base.op == "new":
                d = dict(base.a[1])
                d[p.attr] = v
                return raw("new", base.a[0], tuple(sorted(d.items())))
            if p.attr == "__dict__":
                return base
            return raw("setattr", base, p.attr, v)
        i = self.eval(p.slice, env)
        return ext.set_item(self, base, i, v)

    def s_AnnAssign(self, s, env, st, i, k):
        if s.value is None:
            return env
        v = self.eval(s.value, env)
        self.assign(s.target, v, env, s.value)
        return self.guard(v, env, st, i, k)

    def s_AugAssign(self, s, env, st, i, k):
        load = ast.copy_location(_load(s.target), s.target)
        a = self.eval(load, env)
        b = self.eval(s.value, env)
        v = ext.binop(self, type(s.op).__name__, a, b)
        if isinstance(s.target, ast.Name):
            c = env.vars.get(s.target.id)
            if c is not None and ext.listlike(self, a):
                if c.roots:
                    self.effect(env, raw("loc", a, "+=", NONE), v)
                if c.esc:
                    v = self.opq("aliased mutation", s, env)
                c.v = v
                if c.views:
                    self.spoil(c, env, s)
            else:
                views = c.views if c is not None else ()
                if views:
                    self.spoil(c, env, s)
                self.set_name(s.target.id, v, env)
        else:
            self.store(s.target, v, env)
        return self.guard(v, env, st, i, k)

    def s_Expr(self, s, env, st, i, k):
        e = s.value
        if isinstance(e, (ast.Yield,)):
            c = env.find("#yield")
            v = self.eval(e.value, env) if e.value is not None else NONE
            if c is not None:
                c.v = cat(c.v, seq(v))
            return env
        if isinstance(e, ast.YieldFrom):
            c = env.find("#yield")
            v = self.tolist(self.eval(e.value, env))
            if c is not None:
                c.v = cat(c.v, v)
            return env
        if isinstance(e, ast.Constant):
            return env
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and self.static(e.func, env) is None:
            r = self.method_stmt(e, env)
            if r is not None:
                return self.guard(r, env, st, i, k)
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if d in ("print", "warnings.warn"):
                return env
            rs = self.static(e.func, env)
            if rs is not None and rs[0] == "ext" and rs[1] in ("builtins.print", "warnings.warn"):
                return env
        v = self.eval(e, env)
        if self.hidden_writes(e, env):
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    self.changed(x, env, s)
            return env
        if isinstance(e, ast.Call):
            rs = self.static(e.func, env)
            if rs is not None and rs[0] == "ext" and not ext.is_pure(rs[1]):
                self.effect(env, raw("loc", raw("global", rs[1]), "call", v), TRUE)
        return self.guard(v, env, st, i, k)

    def hidden_writes(self, e, env):
        """A statement that writes through a lambda, a comprehension or a function handed on."""
        for x in ast.walk(e):
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if any(
                    isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in MUTATORS
                    for y in ast.walk(x)
                ):
                    return True
                inner = [y.func for y in ast.walk(x) if isinstance(y, ast.Call)]
            elif isinstance(x, ast.Call):
                inner = list(x.args)
            else:
                continue
            for a in inner:
                c = env.find(a.id) if isinstance(a, ast.Name) else None
                if c is not None and c.v.op == "clo":
                    fn = Clo.table[c.v].fn
                    if isinstance(fn, ast.FunctionDef) and writes(fn):
                        return True
        return False

    def method_stmt(self, e, env):
        """Expression statement recv.m(...): mutation of a container or object."""
        f = e.func
        name = f.attr
        if name in PURE_STMT_METHODS:
            return NONE
        if isinstance(f.value, ast.Call) and dotted(f.value.func) == "super":
            return None
        recv = self.eval(f.value, env)
        rm = self.resolve_method(recv, name)
        if rm is not None:
            return None
        if recv.op in ("global", "extfn", "cls"):
            return None
        for a in list(e.args) + [x.value for x in e.keywords]:
            self.escape(a, env)
        args = []
        for a in e.args:
            args.append(self.eval(a.value if isinstance(a, ast.Starred) else a, env))
        kw = {x.arg: self.eval(x.value, env) for x in e.keywords if x.arg}
        v = ext.mutate(self, recv, name, args, kw)
        # write back along the path
        x = f.value
        path = []
        while isinstance(x, (ast.Attribute, ast.Subscript)):
            path.append(x)
            x = x.value
        path.reverse()
        if not isinstance(x, ast.Name):
            self.changed(x, env, e)
            return NONE
        c = env.find(x.id)
        if c is None:
            self.effect(env, raw("loc", recv, name, NONE), v)
            return NONE
        if c.roots:
            self.effect(env, raw("loc", recv, name, NONE), v)
        if c.esc:
            c.v = self.opq("aliased mutation", e, env)
        elif path:
            c.v = self.set_path(c.v, path, v, env)
        else:
            c.v = v
        if c.views or c.holds:
            self.spoil(c, env, e, len(path) > 0)
        return NONE if v.op != "raise" else v

    def s_Return(self, s, env, st, i, k):
        v = self.eval(s.value, env) if s.value is not None else NONE
        if v.op == "raise":
            return v
        if v.op == "ite" and any(l.op == "raise" for l in leaves(v)):
            return map_leaves(v, lambda l: l if l.op == "raise" else k.ret(env, l))
        return k.ret(env, v)

    def s_Raise(self, s, env, st, i, k):
        e = s.exc
        if e is None:
            c = env.find("#exc")
            return c.v if c is not None else raw("raise", "?")
        if isinstance(e, ast.Call):
            e = e.func
        d = dotted(e)
        if d is None:
            return raw("raise", "?")
        c = env.find(d)
        if c is not None and c.v.op in ("raise",):
            return c.v
        if c is not None and c.v.op == "exc":
            return raw("raise", c.v.a[0])
        return raw("raise", d.split(".")[-1])

    def s_Break(self, s, env, st, i, k):
        return k.brk(env) if k.brk else self.opq("break", s, env)

    def s_Continue(self, s, env, st, i, k):
        return k.cont(env) if k.cont else self.opq("continue", s, env)

    def s_If(self, s, env, st, i, k):
        c = self.cond(s.test, env)
        if c is TRUE:
            return self.block(list(s.body) + list(st[i + 1:]), 0, env, k)
        if c is FALSE:
            return self.block(list(s.orelse) + list(st[i + 1:]), 0, env, k)
        if c.op == "raise":
            return c
        return self.branch(
            c, lambda en, kk: self.block(s.body, 0, en, kk),
            lambda en, kk: self.block(s.orelse, 0, en, kk),
            contains(s.body, ABRUPT), contains(s.orelse, ABRUPT), env, st, i, k)

    def branch(self, c, fa, fb, abr_a, abr_b, env, st, i, k):
        """if c: fa else: fb, then the rest of the block."""
        if not abr_a and not abr_b:
            ca, cb = [], []
            fall = raw("fall")

            def cap(lst):
                def f(en):
                    lst.append(en)
                    return fall
                return f

            oa = fa(under(env.fork(), c, True), K(cap(ca), k.ret, k.brk, k.cont))
            ob = fb(under(env.fork(), c, False), K(cap(cb), k.ret, k.brk, k.cont))
            if oa is fall and ob is fall and len(ca) == 1 and len(cb) == 1:
                return merge(c, ca[0], cb[0])
        kk = k.with_next(lambda en: self.block(st, i + 1, en, k))
        return ite(c, fa(under(env.fork(), c, True), kk), fb(under(env.fork(), c, False), kk))

    def s_With(self, s, env, st, i, k):
        for it in s.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, call("enter", (("0", v),)), env)
        return self.block(list(s.body) + list(st[i + 1:]), 0, env, k)

    def s_Match(self, s, env, st, i, k):
        subj = self.eval(s.subject, env)
        chain = None
        conds = []
        for case in s.cases:
            c = self.pattern(case.pattern, subj, env)
            if c is None:
                return self.opq("match pattern", s, env)
            if case.guard is not None:
                c = and_(c, self.cond(case.guard, env))
            conds.append((c, case.body))

        def go(j, en, kk):
            if j == len(conds):
                return kk.next(en)
            c, body = conds[j]
            if c is TRUE:
                return self.block(body, 0, en, kk)
            return ite(c, self.block(body, 0, en.fork(), kk), go(j + 1, en.fork(), kk))

        return go(0, env, k.with_next(lambda en: self.block(st, i + 1, en, k)))

    def pattern(self, p, subj, env):
        if isinstance(p, ast.MatchValue):
            return ext.compare(self, "Eq", subj, self.eval(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return eq(subj, const(p.value))
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                env.vars[p.name] = Cell(subj)
            return TRUE
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(x, subj, env) for x in p.patterns]
            return None if any(c is None for c in cs) else or_(*cs)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return ext.isinstance_(self, subj, self.eval(p.cls, env))
        return None

    # try ----------------------------------------------------------------

    def s_Try(self, s, env, st, i, k):
        rest = list(s.finalbody) + list(st[i + 1:])
        done = []
        knext = lambda en: raw("safe", self.block(list(s.orelse) + rest, 0, en, k))
        kk = K(
            knext, lambda en, v: raw("safe", k.ret(en, v)),
            (lambda en: raw("safe", k.brk(en))) if k.brk else None,
            (lambda en: raw("safe", k.cont(en))) if k.cont else None,
        )
        start = env.fork()
        ext.TRYSTACK.append([])
        try:
            o = self.block(s.body, 0, env.fork(), kk)
        finally:
            calls = ext.TRYSTACK.pop()
        hs = []
        for h in s.handlers:
            names = []
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                if t is None:
                    names.append("*")
                else:
                    d = dotted(t)
                    r = self.static(t, env)
                    nm = d.split(".")[-1] if d else "?"
                    if r is not None and r[0] == "ext":
                        nm = r[1].split(".")[-1]
                    names.append(nm)
            hs.append((names, h))

        def run(h, exc):
            en = start.fork()
            if h.name:
                en.vars[h.name] = Cell(exc)
            en.vars["#exc"] = Cell(exc)
            return self.block(list(h.body) + rest, 0, en, k)

        def leaf(l):
            if l.op == "safe":
                return l.a[0]
            if l.op == "raise":
                for names, h in hs:
                    if any(ext.exc_matches(self, l.a[0], n) for n in names):
                        return run(h, l)
            return l

        o = map_leaves(o, leaf)
        # external calls that may throw a handled exception
        for names, h in hs:
            for n in names:
                conds = ext.throws(n, calls)
                if conds is None:
                    conds = [self.opq(f"may raise {n}", s, env)]
                for c in conds:
                    o = ite(raw("throws", n, c), run(h, raw("raise", n)), o)
        return o

    # loops ----------------------------------------------------------------

    def s_For(self, s, env, st, i, k):
        new = scalarised(s, env)
        if new is not None:
            return self.block(new + list(st[i + 1:]), 0, env, k)
        for name, owner in element_stores(s):
            c = env.find(owner)
            if c is None or c.roots or c.v.op not in ("seq", "cm", "cat", "lst", "arr", "ite", "sym"):
                continue
            if contains(s.body, (ast.Continue, ast.Break, ast.Return)) or assigned_names(s.body).count(owner) or s.orelse:
                c.v = self.opq("elements changed in a loop", s, env)
                continue
            put = ast.parse(f"{owner}[__k] = {name}").body[0]
            new = ast.For(
                target=ast.Tuple([ast.Name("__k", ast.Store()), s.target], ast.Store()),
                iter=ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], []), body=list(s.body) + [put], orelse=[])
            new = ast.fix_missing_locations(ast.copy_location(new, s))
            xs = self.tolist(self.eval(new.iter, env))
            return self.for_over(new, xs, env, st, i, k)
        xs = self.tolist(self.eval(s.iter, env))
        held = self.holds(s.iter, env)
        if held and isinstance(s.target, ast.Name) and any(
            isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) and root_name(x) == s.target.id
            or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS
            and root_name(x.func.value) == s.target.id
            or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and env.find(x.func.id) is not None
            and any(isinstance(z, ast.Name) and z.id == s.target.id for z in x.args)
            for y in s.body for x in ast.walk(y)
        ):
            r = self.for_over(s, xs, env, [s], 0, k.with_next(lambda en: en))
            if isinstance(r, Env):
                for n in held:
                    if r.find(n) is not None:
                        r.find(n).v = self.opq("changed in a loop", s, r)
                return r
            for n in held:
                env.find(n).v = self.opq("changed in a loop", s, env)
        return self.for_over(s, xs, env, st, i, k)

    def for_over(self, s, xs, env, st, i, k):
        if xs.op == "raise":
            return xs
        if xs.op in ("arr", "lst") and xs.a[0].op in ("seq", "cm", "cat", "ite", "range"):
            xs = xs.a[0]
        if xs.op == "ite":
            def part(ys, v):
                kn = facts(xs.a[0], v, {})
                ys = substitute(ys, {a: TRUE if b else FALSE for a, b in kn.items()})

                def f(en, kk):
                    r = self.for_over(s, ys, en, [s], 0, kk)
                    return kk.next(r) if isinstance(r, Env) else r
                return f
            ab = contains(s.body, ABRUPT)
            return self.branch(xs.a[0], part(xs.a[1], True), part(xs.a[2], False), ab, ab, env, st, i, k)
        if xs.op in ("enumerate", "zip") or xs.op == "range" and numval(V.range_count(*xs.a)) in (0, 1, 2, 3, 4):
            ys = iterate(xs, lambda y: seq(y))
            if ys.op == "seq":
                xs = ys
        rest = lambda en: self.block(st, i + 1, en, k)
        orelse = lambda en: self.block(list(s.orelse) + list(st[i + 1:]), 0, en, k)
        if xs.op == "seq" and len(xs.a[0]) <= 8:
            def go(j, en):
                if j == len(xs.a[0]):
                    return orelse(en)
                self.assign(s.target, xs.a[0][j], en)
                nxt = lambda e2: go(j + 1, e2)
                return self.block(s.body, 0, en, K(nxt, k.ret, rest, nxt))
            return go(0, env)
        return self.loop(s, xs, env, st, i, k)

    def loop(self, s, xs, env, st, i, k):
        return Loop(self, s, xs, env, st, i, k).run()

    def s_While(self, s, env, st, i, k):
        new = tested_at_top(s) or scalarised(s, env)
        if new is not None:
            return self.block(new + list(st[i + 1:]), 0, env, k)
        return WhileLoop(self, s, env, st, i, k).run()


def own_jumps(body):
    """break and continue statements that belong to the loop around body."""
    out, todo = [], list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Break, ast.Continue)):
            out.append(x)
        elif not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(x))
    return out


def tested_at_top(s):
    """while True: A; if c: break; B   as   A; while not c: B; A"""
    if not (isinstance(s.test, ast.Constant) and s.test.value in (True, 1)) or s.orelse:
        return None
    jumps = own_jumps(s.body)
    if len(jumps) != 1 or not isinstance(jumps[0], ast.Break):
        return None
    for j, x in enumerate(s.body):
        if isinstance(x, ast.If) and x.body[-1:] == jumps and len(x.body) == 1:
            a, b = s.body[:j], list(x.orelse) + s.body[j + 1:]
            new = ast.While(test=ast.UnaryOp(ast.Not(), x.test), body=b + a or [ast.Pass()], orelse=[])
            return a + [ast.fix_missing_locations(ast.copy_location(new, s))]
    return None


def scalarised(s, env):
    """A loop over the entries of a dictionary of lists as a loop over as many lists."""
    names = {}
    for x in s.body:
        for y in ast.walk(x):
            if isinstance(y, ast.Name):
                names[y.id] = names.get(y.id, 0) + 1
    for n in names:
        c = env.find(n)
        if c is None or c.v.op != "dict" or not c.v.a[0] or c.roots:
            continue
        if not all(k.op == "const" and k.a[0] == "str" and v.op in ("seq", "cm", "cat", "lst") for k, v in c.v.a[0]):
            continue
        keys = [k.a[1] for k, _ in c.v.a[0]]
        hits = [
            y for x in s.body for y in ast.walk(x)
            if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id == n
            and isinstance(y.slice, ast.Constant) and y.slice.value in keys
        ]
        if len(hits) != names[n] or any(isinstance(y, (ast.FunctionDef, ast.Lambda)) for x in s.body for y in ast.walk(x)):
            continue
        if any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(s.test if isinstance(s, ast.While) else s.iter)):
            continue
        cell = {k: f"{n}__{j}" for j, k in enumerate(keys)}

        class Sub(ast.NodeTransformer):
            def visit_Subscript(self, y):
                if isinstance(y.value, ast.Name) and y.value.id == n:
                    return ast.copy_location(ast.Name(cell[y.slice.value], y.ctx), y)
                return self.generic_visit(y)

        new = Sub().visit(copy.deepcopy(s))
        pre = [ast.parse(f"{cell[k]} = {n}[{k!r}]").body[0] for k in keys]
        post = ast.parse(f"{n} = {{" + ", ".join(f"{k!r}: {cell[k]}" for k in keys) + "}").body[0]
        return [ast.copy_location(z, s) for z in pre] + [new, ast.copy_location(post, s)]
    return None


def element_stores(s):
    """(loop variable, list it runs over) for elements changed in place in the loop body."""
    src = {}
    it, t = s.iter, s.target
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args:
        if isinstance(t, ast.Tuple) and len(t.elts) == 2:
            it, t = it.args[0], t.elts[1]
    pairs = [(t, it)]
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and isinstance(t, ast.Tuple):
        pairs = list(zip(t.elts, it.args))
    for a, b in pairs:
        if isinstance(a, ast.Name) and isinstance(b, ast.Name):
            src[a.id] = b.id
    if not src:
        return []
    hit = []
    for x in s.body:
        for y in ast.walk(x):
            ts = []
            if isinstance(y, ast.Assign):
                ts = y.targets
            elif isinstance(y, ast.AugAssign):
                ts = [y.target]
            elif isinstance(y, ast.Delete):
                ts = y.targets
            elif isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in MUTATORS:
                ts = [y.func]
            for t in ts:
                if isinstance(t, ast.Name):
                    continue
                while isinstance(t, (ast.Attribute, ast.Subscript)):
                    t = t.value
                if isinstance(t, ast.Name) and t.id in src and t.id not in hit:
                    hit.append(t.id)
    return [(n, src[n]) for n in hit]


def raise_cond(v):
    return map_leaves(v, lambda l: l if l.op == "raise" else TRUE) if False else _raise_tree(v)


def _raise_tree(v):
    if v.op == "ite":
        a, b = _raise_tree(v.a[1]), _raise_tree(v.a[2])
        if a is b:
            return a
        return raw("ite", v.a[0], a, b)
    return v if v.op == "raise" else raw("fall")


def update_heap(h, loc, v):
    if h.op == "dict":
        d = dict(h.a[0])
        d[loc] = v
        return raw("dict", tuple(sorted(d.items(), key=lambda kv: kv[0].id)))
    if h.op == "ite":
        return ite(h.a[0], update_heap(h.a[1], loc, v), update_heap(h.a[2], loc, v))
    return raw("setitem", h, loc, v)


def is_gen(fn):
    return contains(fn.body, (ast.Yield, ast.YieldFrom))


def _load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for x in ast.walk(t2):
        if hasattr(x, "lineno"):
            x.lineno = t.lineno
    return t2


class Loop:
    """for target in xs: body — classified per carried variable."""

    def __init__(self, ev, s, xs, env, st, i, k):
        self.ev, self.s, self.xs, self.env, self.st, self.i, self.k = ev, s, xs, env, st, i, k

    def carried(self, env, body):
        names = []
        for n in assigned_names(body):
            maybe = n.startswith("?")
            n = n.lstrip("?")
            c = env.find(n)
            if maybe:
                # only containers handed to local helpers can change
                if c is None or c.v.op not in ("seq", "cm", "cat", "dict", "update", "lst"):
                    continue
            if n not in names:
                names.append(n)
        for h in ("#heap", "#yield"):
            if env.find(h) is not None:
                names.append(h)
        return names

    def run(self):
        ev, s = self.ev, self.s
        env = self.env
        targets = assigned_names([ast.For(target=s.target, iter=s.iter, body=[], orelse=[])])
        names = [n for n in self.carried(env, s.body) if n not in targets or True]
        names = [n for n in names if n not in targets]
        # a fork in which carried cells hold fresh state symbols
        body_env = env.fork()
        state, seen = [], {}
        for n in names:
            c = body_env.find(n)
            if c is None:
                c = Cell(UNBOUND)
                body_env.vars[n] = c
            elif n not in body_env.vars:
                if n in ("#heap", "#yield"):
                    pass
                c2 = Cell(c.v, c.roots, c.esc, c.views, c.holds)
                body_env.vars[n] = c2
                c = c2
            if id(c) in seen:
                continue
            sy = fresh("s")
            t = ev.typeof(c.v) if c.v is not UNBOUND else None
            if not t and c.v is not UNBOUND and ext.listlike(ev, c.v):
                t = ("list", None)
            if t:
                ev.types[sy] = t
            seen[id(c)] = sy
            state.append([n, sy, c.v])
            c.v = sy
        e = fresh("e")
        if self.xs.op == "range" and all(V.isint(x) for x in self.xs.a):
            lo, st_ = numval(self.xs.a[0]), numval(self.xs.a[2])
            if lo is not None and st_ is not None and lo >= 0 and st_ > 0:
                e = fresh("i")
            INTSYMS.add(e)
        et = ev.typeof(self.xs)
        if et and et[0] == "list" and et[1]:
            ev.setty(e, et[1])
        toks = {}

        def tok(kind):
            def f(en, v=None):
                t = raw("tok", kind, V.fresh("t").a[0])
                toks[t] = (kind, en, v)
                return t
            return f

        kk = K(tok("next"), tok("ret"), tok("brk"), tok("next"))
        # bind the target on a symbol that is later replaced by the element
        benv = body_env
        ev.assign(s.target, e, benv)
        o = ev.block(s.body, 0, benv, kk)
        return self.finish(o, toks, state, e)

    # -- value of a carried variable at the end of an iteration

    def nextval(self, o, toks, n, kinds=("next",)):
        ls = leaves(o)
        vals = {}
        for l in ls:
            if l.op == "tok" and toks[l][0] in kinds:
                c = toks[l][1].find(n)
                vals[l] = c.v if c is not None else UNBOUND
        if not vals:
            return None
        dflt = list(vals.values())[0]
        return prune_map(o, vals)

    def finish(self, o, toks, state, e):
        ev, s = self.ev, self.s
        ls = leaves(o)
        kinds = {toks[l][0] if l.op == "tok" else l.op for l in ls}
        if any(kd not in ("next", "ret", "brk", "raise") for kd in kinds):
            return self.give_up(state)
        stop = map_leaves_bool(o, lambda l: not (l.op == "tok" and toks[l][0] == "next"))
        nxt = {}
        for n, sy, init in state:
            v = self.nextval(o, toks, n)
            nxt[n] = v if v is not None else sy
        res = solve(ev, self.xs, e, [(n, sy, init, nxt[n]) for n, sy, init in state])
        if res is None:
            if stop is FALSE:
                return self.give_up(state)
            return ev.opq("loop with early exit", s, self.env)
        final, live = res     # final: name -> value after the loop; live: sym -> value during iteration (function of e) or None
        if stop is not FALSE:
            # carried values used on exit paths must be expressible per element
            deps = {sy for _, sy, _ in state}
            subst = {}
            for n, sy, init in state:
                lv = live.get(n)
                if lv is not None:
                    subst[sy] = lv
            bad = set(sy for _, sy, _ in state) - set(subst)
            exit_nodes = []

            def fix(x):
                return substitute(x, subst) if subst else x

            stop_c = fix(stop)
            if stop_c.syms & bad:
                return ev.opq("early exit depends on loop state", s, self.env)
            anystop = any_(iterate(self.xs, lambda x: seq(substitute(stop_c, {e: x}))))
            rest = lambda en: ev.block(list(s.orelse) + list(self.st[self.i + 1:]), 0, en, self.k)
            after = lambda en: ev.block(self.st, self.i + 1, en, self.k)
            exits = [l for l in ls if not (l.op == "tok" and toks[l][0] == "next")]
            uniq = list(dict.fromkeys(exits))
            normal = rest(self.final_env(final))

            def exit_value(make):
                """value at the first stopping element, as a node"""
                xs = iterate(
                    self.xs, lambda x: V.lite(substitute(stop_c, {e: x}), seq(substitute(fix(make), {e: x})), NIL)
                )
                if xs.op == "cm" and xs.a[1].a[1].op == "ite":
                    body = xs.a[1].a[1]
                    b1 = body.a[1] if body.a[1].op == "seq" and body.a[1].a[0] else body.a[2]
                    if b1.op == "seq" and len(b1.a[0]) == 1 and b1.a[0][0].maxbv < 0:
                        return b1.a[0][0]
                return index(xs, num(0))

            if all(l.op == "raise" for l in uniq):
                if len(uniq) == 1:
                    return ite(anystop, uniq[0], normal)
                which = exit_value(map_exits(o, toks, lambda l: const("exc:" + l.a[0]) if l.op == "raise" else NONE))
                r = uniq[-1]
                for u in reversed(uniq[:-1]):
                    r = ite(eq(which, const("exc:" + u.a[0])), u, r)
                return ite(anystop, r, normal)
            # which exit is taken at the stopping element
            out = None
            groups = {}
            for u in uniq:
                kd = "raise:" + u.a[0] if u.op == "raise" else toks[u][0]
                groups.setdefault(kd, []).append(u)

            def outcome(kd, us):
                if kd.startswith("raise:"):
                    return us[0]
                if kd == "ret":
                    val = exit_value(map_exits(o, toks, lambda l: toks[l][2] if l.op == "tok" and toks[l][0] == "ret" else NONE))
                    en = self.final_env(final, True)
                    if val.syms & bad:
                        return ev.opq("returned loop state", s, self.env)
                    return self.k.ret(en, val)
                # break: carried variables take their value on the break path
                vals = {}
                for n, sy, init in state:
                    v = map_exits(o, toks, lambda l: (
                        toks[l][1].find(n).v if l.op == "tok" and toks[l][0] == "brk" and toks[l][1].find(n) is not None else NONE))
                    if v is sy and live.get(n) is None:
                        vals[n] = ev.opq("state at break", s, self.env)
                        continue
                    vv = exit_value(v)
                    if vv.syms & bad:
                        vv = ev.opq("state at break", s, self.env)
                    vals[n] = vv
                return after(self.final_env(vals))

            keys = list(groups)
            if len(keys) == 1:
                return ite(anystop, outcome(keys[0], groups[keys[0]]), normal)
            which = exit_value(map_exits(o, toks, lambda l: const(
                "raise:" + l.a[0] if l.op == "raise" else toks[l][0]) if not (l.op == "tok" and toks[l][0] == "next") else NONE))
            r = outcome(keys[-1], groups[keys[-1]])
            for kd in reversed(keys[:-1]):
                r = ite(eq(which, const(kd)), outcome(kd, groups[kd]), r)
            return ite(anystop, r, normal)
        en = self.final_env(final)
        if s.orelse:
            return ev.block(list(s.orelse) + list(self.st[self.i + 1:]), 0, en, self.k)
        return en

    def final_env(self, final, keep=False):
        en = self.env.fork()
        for n, v in final.items():
            c = en.find(n)
            if c is None:
                en.vars[n] = Cell(v)
            else:
                if n not in en.vars:
                    en.vars[n] = Cell(v, c.roots, c.esc, c.views, c.holds)
                else:
                    en.vars[n].v = v
        return en

    def give_up(self, state):
        ev = self.ev
        en = self.env.fork()
        why = ev.opq("loop", self.s, self.env)
        for n, sy, init in state:
            c = en.find(n)
            v = ev.opq("loop result", self.s, self.env)
            if n in en.vars:
                en.vars[n].v = v
            else:
                en.vars[n] = Cell(v)
        if contains(self.s.body, ABRUPT):
            return why
        return en


def map_leaves_bool(o, pred):
    if o.op == "ite":
        return ite(o.a[0], map_leaves_bool(o.a[1], pred), map_leaves_bool(o.a[2], pred))
    return TRUE if pred(o) else FALSE


def prune_map(o, vals):
    """Map token leaves to values, ignoring branches that leave the loop."""
    if o.op == "ite":
        a, b = prune_map(o.a[1], vals), prune_map(o.a[2], vals)
        if a is None:
            return b
        if b is None:
            return a
        return ite(o.a[0], a, b)
    return vals.get(o)


def map_exits(o, toks, f):
    if o.op == "ite":
        a, b = map_exits(o.a[1], toks, f), map_exits(o.a[2], toks, f)
        if a is None:
            return b
        if b is None:
            return a
        return ite(o.a[0], a, b)
    if o.op == "tok" and toks[o][0] == "next":
        return None
    return f(o)


# ------------------------------------------------------------------ loop algebra

def listdelta(n, s):
    """n = s ++ X -> X"""
    if n is s:
        return NIL
    if n.op == "cat":
        h = n.a[0][0]
        if h is s or (h.op == "lst" and h.a[0] is s):
            return cat(*n.a[0][1:])
        return None
    if n.op == "lst" and n.a[0] is s:
        return NIL
    if n.op == "ite":
        a, b = listdelta(n.a[1], s), listdelta(n.a[2], s)
        if a is None or b is None:
            return None
        if s in n.a[0].syms:
            return None
        return V.lite(n.a[0], a, b)
    return None


def numdelta(n, s):
    """n = s + X -> X"""
    if n is s:
        return num(0)
    if n.op == "ite":
        if s in n.a[0].syms:
            return None
        a, b = numdelta(n.a[1], s), numdelta(n.a[2], s)
        return None if a is None or b is None else ite(n.a[0], a, b)
    d = sub(n, s)
    return d if s not in d.syms else None


def booldelta(n, s):
    """n = s or X -> X (s boolean accumulator)"""
    if n is s:
        return FALSE
    if n is TRUE:
        return TRUE
    if n.op == "ite":
        if s in n.a[0].syms:
            return None
        a, b = booldelta(n.a[1], s), booldelta(n.a[2], s)
        return None if a is None or b is None else ite(n.a[0], a, b)
    if n.op == "or" and s in n.a[0]:
        r = or_(*[x for x in n.a[0] if x is not s])
        return r if s not in r.syms else None
    ts = raw("truth", s)
    if n.op == "or" and ts in n.a[0]:
        r = or_(*[x for x in n.a[0] if x is not ts])
        return r if s not in r.syms else None
    return None


def alldelta(n, s):
    """n = s and X"""
    if n is s:
        return TRUE
    if n is FALSE:
        return FALSE
    if n.op == "ite":
        if s in n.a[0].syms:
            return None
        a, b = alldelta(n.a[1], s), alldelta(n.a[2], s)
        return None if a is None or b is None else ite(n.a[0], a, b)
    for t in (s, raw("truth", s)):
        if n.op == "and" and t in n.a[0]:
            r = and_(*[x for x in n.a[0] if x is not t])
            return r if s not in r.syms else None
    return None


def setdelta(n, s):
    """n = s[k1]=v1[k2]=v2... -> [(k, v)]"""
    out = []
    while True:
        if n is s:
            return list(reversed(out))
        if n.op == "setitem":
            out.append((n.a[1], n.a[2]))
            n = n.a[0]
        elif n.op == "update":
            for k, v in reversed(n.a[1]):
                out.append((k, v))
            n = n.a[0]
        else:
            return None


def solve(ev, xs, e, states):
    """states: (name, sym, init, next).  Returns ({name: final}, {name: value during
    an iteration as a function of e, or None})."""
    final, live = {}, {}
    pend = list(states)
    subst = {}
    # the loop counter, when the domain is simple
    changed = True
    while changed:
        changed = False
        for st in list(pend):
            n, sy, init, nx = st
            nx = substitute(nx, subst) if subst and (nx.syms & set(subst)) else nx
            if nx is sy:
                subst[sy] = init
                final[n] = init
                live[n] = init
                pend.remove(st)
                changed = True
    pend = [(n, sy, init, substitute(nx, subst) if subst else nx) for n, sy, init, nx in pend]
    # names bound only inside the body, which no carried value depends on
    need = {sy for _, sy, init, _ in pend if init is not UNBOUND}
    more = True
    while more:
        more = False
        for n, sy, init, nx in pend:
            if sy in need:
                for d in nx.syms:
                    if d not in need and any(d is q for _, q, _, _ in pend):
                        need.add(d)
                        more = True
    for st in list(pend):
        n, sy, init, nx = st
        if sy not in need and sy in nx.syms:
            final[n] = ev.opq("name bound inside a loop")
            live[n] = None
            pend.remove(st)
    syms = {sy for _, sy, _, _ in pend}
    # counters: next = s + c with c independent of the element and state
    dom = ext.domain(ev, xs)
    if dom is not None:
        cnt, idx, elem = dom
        csub = {}
        for st in list(pend):
            n, sy, init, nx = st
            if any(sy in nx2.syms for m, _, _, nx2 in pend if m != n) or True:
                d = numdelta(nx, sy)
                if d is None or d.op == "ite" or ext.listlike(ev, init):
                    continue
                v = numval(d)
                if v is None or v == 0 or numval(init) is None:
                    continue
                used = any(sy in nx2.syms for m, _, _, nx2 in pend if m != n)
                if not used:
                    continue
                csub[sy] = add(init, mul(idx, d))
                final[n] = add(init, mul(cnt, d))
                live[n] = None
                pend.remove(st)
        if csub:
            pend = [
                (n, sy, init, substitute(substitute(nx, {e: elem}), csub))
                for n, sy, init, nx in pend
            ]
            xs_i = raw("range", num(0), cnt, num(1))
            r2 = solve(ev, xs_i, idx, pend)
            if r2 is None:
                return None
            f2, l2 = r2
            final.update(f2)
            for m in f2:
                live[m] = l2.get(m) if l2.get(m) is not None and idx not in l2[m].syms else None
            return final, live
    syms = {sy for _, sy, _, _ in pend}
    rest = []

    def over(f):
        return iterate(xs, lambda x: f(x))

    for st in pend:
        n, sy, init, nx = st
        others = syms - {sy}
        used_elsewhere = any(sy in nx2.syms for m, _, _, nx2 in pend if m != n)
        if used_elsewhere or (nx.syms & others):
            rest.append(st)
            continue
        if sy not in nx.syms:
            # overwritten in every iteration: last value, or the initial one
            vals = over(lambda x: seq(substitute(nx, {e: x})))
            ln = length(vals)
            final[n] = ite(V.eq0(ln), init, index(vals, num(-1)))
            if init is UNBOUND:
                final[n] = index(vals, num(-1))
            live[n] = None
            continue
        d = None
        if ext.listlike(ev, init) or init.op == "lst":
            d = listdelta(nx, sy)
            if d is not None and not (d.syms & syms):
                final[n] = cat(init, over(lambda x: substitute(d, {e: x})))
                live[n] = None
                continue
        if init is FALSE or init is TRUE:
            d = booldelta(nx, sy) if init is FALSE else None
            if d is not None and not (d.syms & syms):
                final[n] = any_(over(lambda x: seq(substitute(d, {e: x}))))
                live[n] = None
                continue
            d = alldelta(nx, sy) if init is TRUE else None
            if d is not None and not (d.syms & syms):
                final[n] = all_(over(lambda x: seq(substitute(d, {e: x}))))
                live[n] = None
                continue
        sd = setdelta(nx, sy)
        if sd and not any((k.syms | v.syms) & syms for k, v in sd):
            r = ext.scatter(ev, xs, e, init, sd)
            if r is not None:
                final[n] = r
                live[n] = None
                continue
        if n != "#heap" and not ext.listlike(ev, init):
            d = numdelta(nx, sy)
            if d is not None and not (d.syms & syms):
                final[n] = add(init, ext.sum_(ev, over(lambda x: seq(substitute(d, {e: x})))))
                live[n] = None
                continue
        rest.append(st)
    if rest:
        if dom is None:
            return None
        cnt, idx, elem = dom
        ss = [sy for _, sy, _, _ in rest]
        if any(not ({s for s in nx.syms} & (syms - set(ss))) is True for _, _, _, nx in rest) and False:
            return None
        nxs = [substitute(nx, {e: elem}) for _, _, _, nx in rest]
        bad = syms - set(ss)
        if any(nx.syms & bad for nx in nxs):
            return None
        rest = [(n, sy, init, nx) for (n, sy, init, _), nx in zip(rest, nxs)]
        for n, sy, init, nx in rest:
            part = depends(rest, {sy})
            body = abstract(raw("tup", tuple(v for _, _, _, v in part)), [idx] + [q for _, q, _, _ in part])
            fold = raw("fold", cnt, tuple(i0 for _, _, i0, _ in part), body)
            final[n] = raw("proj", fold, [q for _, q, _, _ in part].index(sy))
            live[n] = None
    return final, live


def depends(states, syms):
    """The states that the given ones depend on, in order."""
    need = set(syms)
    more = True
    while more:
        more = False
        for _, sy, _, nx in states:
            if sy in need and not nx.syms <= need:
                need |= nx.syms
                more = True
    return [x for x in states if x[1] in need]


class WhileLoop(Loop):
    def __init__(self, ev, s, env, st, i, k):
        self.ev, self.s, self.env, self.st, self.i, self.k = ev, s, env, st, i, k

    def run(self):
        ev, s, env = self.ev, self.s, self.env
        names = self.carried(env, s.body + [ast.Expr(s.test)])
        body_env = env.fork()
        state, seen = [], {}
        for n in names:
            c = body_env.find(n)
            if c is None:
                c = Cell(UNBOUND)
                body_env.vars[n] = c
            elif n not in body_env.vars:
                c = body_env.vars[n] = Cell(c.v, c.roots, c.esc, c.views, c.holds)
            if id(c) in seen:
                continue
            sy = fresh("s")
            t = ev.typeof(c.v) if c.v is not UNBOUND else None
            if t:
                ev.types[sy] = t
            if V.isint(c.v):
                INTSYMS.add(sy)
            seen[id(c)] = sy
            state.append([n, sy, c.v])
            c.v = sy
        c = ev.cond(s.test, body_env)
        if contains(s.body, ABRUPT) or s.orelse:
            return self.give_up(state)
        caps = []
        fall = raw("fall")

        def cap(en):
            caps.append(en)
            return fall

        o = ev.block(s.body, 0, body_env, K(cap, self.k.ret))
        if o is not fall or len(caps) != 1:
            return self.give_up(state)
        nx = {n: caps[0].find(n).v for n, _, _ in state}
        st4 = [(n, sy, init, nx[n]) for n, sy, init in state]
        # invariants
        sub_ = {sy: init for n, sy, init, v in st4 if v is sy}
        fin = {n: init for n, sy, init, v in st4 if v is sy}
        st4 = [(n, sy, init, substitute(v, sub_)) for n, sy, init, v in st4 if v is not sy]
        c = substitute(c, sub_)
        # counting loop
        for n, sy, init, v in st4:
            d = numdelta(v, sy)
            if d is None or numval(d) != 1:
                continue
            if c.op == "lt0":
                bound = sub(sy, c.a[0])
            elif c.op == "not" and c.a[0].op == "lt0":
                p = c.a[0].a[0]
                bound = None
            else:
                continue
            if bound is None or sy in bound.syms:
                continue
            if any(s2 in bound.syms for _, s2, _, _ in st4):
                continue
            xs = raw("range", init, bound, num(1))
            r = solve(ev, xs, sy, [x for x in st4 if x[0] != n])
            if r is None:
                break
            fin.update(r[0])
            fin[n] = ite(lt0(sub(bound, init)), init, bound)
            return self.final_env(fin)
        # generic: keep only the variables the condition and results depend on
        live = [x for x in st4 if x[2] is not UNBOUND or True]
        locals_ = [x for x in live if x[2] is UNBOUND]
        core = [x for x in live if x[2] is not UNBOUND]
        ss = [sy for _, sy, _, _ in core]
        if any(v.syms & {x[1] for x in locals_} for _, _, _, v in core) or c.syms & {x[1] for x in locals_}:
            return self.give_up(state)
        for n, sy, _, _ in core:
            part = depends(core, {sy} | c.syms)
            ss = [q for _, q, _, _ in part]
            node = raw(
                "while", tuple(init for _, _, init, _ in part), abstract(c, ss),
                abstract(raw("tup", tuple(v for _, _, _, v in part)), ss),
            )
            fin[n] = raw("proj", node, ss.index(sy))
        for n, sy, init, v in locals_:
            fin[n] = ev.opq("loop local", s, env)
        return self.final_env(fin)
