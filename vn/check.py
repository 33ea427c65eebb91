"""
Decides obligations: (anchor in the repository, reference definition, property ids).

For each obligation the value graph of the repository function and that of the reference
are built and compared.  Other anchored functions are kept as uninterpreted calls on both
sides (assume-guarantee: each has its own obligation), everything else is expanded.
"""
import ast
import contextlib
import os
import signal
import time

from . import nodes as V
from . import ext
from .pyload import Program, dotted
from .evalr import Evaluator, Env, Cell, TooDeep, leaves
from .diff import Differ, Mismatch, Budget, vocab
from .judge import Judge
from .nodes import raw, sym, dict_, NONE
from .models import check_models
from .effects import check_effects
from .confcheck import check_config
from .caches import check_caches

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEBUG = bool(os.environ.get("VN_DEBUG"))
REPO = os.environ.get("TATC_REPO", "/repo")


class Spec:
    def __init__(self, props, anchor, func, heap=False, private=False):
        self.props, self.anchor, self.func = props, anchor, func
        self.heap, self.private = heap, private


class Result:
    def __init__(self, spec, anchor, status, detail="", loc="", sides=None):
        self.spec, self.anchor, self.status, self.detail, self.loc = spec, anchor, status, detail, loc
        self.sides = sides
        self.steps = 0
        self.nodes = 0
        self.rounds = 0


class Context:
    def __init__(self, repo=None, scale=1):
        self.repo = repo or REPO
        self.scale = scale
        self.p = Program(os.path.join(self.repo, "src"), "tatc", self.repo)
        self.code_funcs = set(self.p.funcs)
        self.code_classes = set(self.p.classes)
        sd = os.path.join(HERE, "specs")
        self.spec_modules = []
        for f in sorted(os.listdir(sd)):
            if f.endswith(".py") and not f.startswith("_"):
                m = self.p.add_module("specs." + f[:-3], os.path.join(sd, f), "specs/" + f)
                self.spec_modules.append(m)
        self.p.link()
        if "tatc.config" in self.p.modules:
            self.p.modules["tatc.config"].dynamic.add("rc")     # users replace it
        align_cache_keys(self.p)
        self.specs = {}
        self.consts = {}     # (module, name) -> (props, spec module, expr)
        for m in self.spec_modules:
            for st in m.tree.body:
                if isinstance(st, ast.FunctionDef):
                    self._spec(m, st)
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and dotted(st.value.func) == "constant":
                    a = st.value.args
                    mod, name = a[1].value.rsplit(".", 1)
                    self.consts[(mod, name)] = (a[0].value.split(), m, a[2])
        self.models = []
        self.validations = {}
        for m in self.spec_modules:
            for st in m.tree.body:
                for d in getattr(st, "decorator_list", []):
                    n = dotted(d.func) if isinstance(d, ast.Call) else None
                    if n == "model":
                        self.models.append((d.args[0].value.split(), d.args[1].value, self.p.classes[f"{m.name}.{st.name}"]))
                    elif n == "validation":
                        self.validations[d.args[1].value] = self.p.funcs[f"{m.name}.{st.name}"]
        self.dropped = set()      # private anchors whose helper is gone or differs
        self.memo = {}
        self._results, self._mentions = {}, {}

    def _spec(self, m, st):
        for d in st.decorator_list:
            if isinstance(d, ast.Call) and dotted(d.func) == "spec":
                props = d.args[0].value.split()
                kw = {k.arg: k.value.value for k in d.keywords}
                f = self.p.funcs[f"{m.name}.{st.name}"]
                for a in d.args[1:]:
                    anchor = a.value
                    last = anchor.rsplit(".", 1)[1]
                    private = kw.get("private", last.startswith("_"))
                    self.specs[anchor] = Spec(props, anchor, f, kw.get("heap", False), private)

    # ------------------------------------------------------------ anchors

    def find(self, anchor):
        """-> (Func, owner class or None) or None"""
        parts = anchor.split(".")
        for k in range(len(parts) - 1, 0, -1):
            m = self.p.modules.get(".".join(parts[:k]))
            if m is None:
                continue
            r = self.p.lookup(m, parts[k])
            rest = parts[k + 1:]
            if r is None:
                return None
            if r[0] == "class" and len(rest) == 1:
                f = self.p.find_method(r[1], rest[0])
                return (f, r[1]) if f is not None else None
            if r[0] == "func" and not rest:
                return (r[1], None)
            return None
        return None

    def evaluator(self, keep, budget=400000):
        ev = Evaluator(self.p, keep, {a: s.func for a, s in self.specs.items()}, budget * self.scale)
        for a, s in self.specs.items():
            ev.specof[s.func.qual] = a
            r = self.find(a)
            if r is not None and r[1] is None:
                ev.canon[r[0].qual] = a
        for k, (props, m, e) in self.consts.items():
            ev.specconst[k] = (m, e)
        return ev

    def obligations(self, s):
        """Every implementation the reference governs: [(anchor label, Func, owner)]."""
        r = self.find(s.anchor)
        if r is None:
            return []
        out = [(s.anchor, r[0], r[1])]
        if r[1] is not None:
            name = s.anchor.rsplit(".", 1)[1]
            for c in self.p.subclasses(r[1]):
                f = self.p.find_method(c, name)
                q = c.qual + "." + name
                if f is None or f is r[0] or q in self.specs:
                    continue
                # governed by a nearer reference?
                near = None
                for k in self.p.mro(c):
                    if k.qual + "." + name in self.specs:
                        near = k.qual + "." + name
                        break
                if near == s.anchor and f.cls is c:
                    out.append((q, f, c))
        return out

    # ------------------------------------------------------------ evaluation

    def symbols(self, ev, s, f, owner):
        """One symbol per parameter of the reference, typed by its annotations."""
        g = s.func
        syms = []
        a = g.node.args
        allargs = a.posonlyargs + a.args + a.kwonlyargs
        for i, x in enumerate(allargs):
            y = sym(x.arg)
            t = ev.ann_type(x.annotation, g.module)
            if x.arg == "self" and owner is not None:
                t = ("class", owner.qual)
                if not self.p.subclasses(owner):
                    ev.exact.add(y)
            if t is None:
                ps = f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs
                if i < len(ps):
                    t = ev.ann_type(ps[i].annotation, f.module)
            if t is not None:
                ev.setty(y, t)
            syms.append(y)
        return syms

    def value(self, ev, f, syms, side, qual):
        """Outcome of f on the symbols: (value, heap)."""
        ev.side = side
        env = Env(f.module, f, None, f.cls)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg or a.kwarg:
            return ev.opq("variadic signature"), dict_([])
        env.vars["#heap"] = Cell(dict_([]))
        for n, y in zip(names, syms):
            env.vars[n] = Cell(y, frozenset([y]))
        k = len(a.posonlyargs + a.args)
        ds = dict(zip(names[k - len(a.defaults):k], a.defaults))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names[len(syms):]:
            if n not in ds:
                return ev.opq("parameter without a value: " + n), dict_([])
            env.vars[n] = Cell(ev.default(ds[n], Env(f.module)))
        from .evalr import is_gen
        if is_gen(f.node):
            env.vars["#yield"] = Cell(V.NIL)
        ev.stack = [qual]
        o = ev.exec_body(f.node, env)
        v, h, _ = ev.split_outcome(o)
        return v, h if h is not None else dict_([])

    def defaults(self, ev, f, n):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if d is not None:
                ds[x.arg] = d
        return [
            ev.default(ds[x], Env(f.module)) if x in ds else None for x in names[:n]
        ]

    def compare(self, s, label, f, owner, keep, budget=6000, fast=True):
        """One comparison with a given set of kept anchors."""
        ev = self.evaluator(keep)
        n0 = len(V.N.TABLE) if hasattr(V.N, "TABLE") else 0
        syms = self.symbols(ev, s, f, owner)
        res = Result(s, label, "proved", loc=f.loc())
        code, hc = self.value(ev, f, syms, "code", label)
        ev.steps = 0
        spec, hs = self.value(ev, s.func, syms, "spec", label)
        res.sides = (code, spec)
        res.ev, res.known = ev, (code, spec, hs)
        ms = []
        ev.side = "code"
        dc = self.defaults(ev, f, len(syms))
        ev.side = "spec"
        dsp = self.defaults(ev, s.func, len(syms))
        d = Differ(ev, budget * self.scale, fast)
        for n, x, y in zip(s.func.params(), dc, dsp):
            if y is None:
                continue       # an added default extends the interface
            if x is None:
                ms.append((f"default of {n}", Mismatch(raw("missing"), y, {})))
            elif not s.private:
                for m in d.eqv(x, y):
                    ms.append((f"default of {n}", m))
        ev.side = "code"
        try:
            for m in d.eqv(code, spec):
                ms.append((describe(m.lits, m.why), m))
        except Budget:
            # too many cases to compare one by one: the two values as a whole
            if not fast:
                raise
            m = Mismatch(code, spec, {})
            if not Judge(ev, raw("seq", (code, spec, hs)[1:])).differs(m):
                raise
            ms.append(("as a whole", m))
        if s.heap and not (ms and ms[-1][0] == "as a whole"):
            for m in d.eqv(hc, hs):
                ms.append(("effects " + describe(m.lits, m.why), m))
        res.steps = d.steps
        res.mismatches = ms
        return res

    def classify(self, ms, ev, sides=None):
        """Definite mismatches, reasons for the others."""
        j = Judge(ev, raw("seq", tuple(sides[1:])) if sides is not None else None, sides[0] if sides is not None else None)
        bad, soft = [], []
        for where, m in ms:
            ok, why = j.definite(m)
            (bad if ok else soft).append((where, m.code, m.spec, why))
        return bad, soft

    def decide(self, s, label, f, owner, keep):
        """Iterates: expands kept functions that appear on one side only."""
        firm = []
        last = self.rounds(s, label, f, owner, keep, firm)
        if last.status == "undecided" and firm:
            # expanding what both sides mention alike only blurred the difference
            return firm[0]
        return last

    def rounds(self, s, label, f, owner, keep, firm):
        keep = set(keep) - {label, s.anchor} | {s.anchor}
        last = None
        for rnd in range(6):
            try:
                with limit(60 * self.scale):
                    res = self.compare(s, label, f, owner, keep)
            except TooDeep as e:
                res = Result(s, label, "undecided", f"analysis budget ({e})", f.loc())
                return last or res
            except Budget as e:
                res = Result(s, label, "undecided", "comparison budget", f.loc())
                return last or res
            except RecursionError:
                res = Result(s, label, "undecided", "nesting too deep", f.loc())
                return last or res
            except Exception as e:
                if DEBUG:
                    raise
                res = Result(s, label, "undecided", f"outside the analysed subset ({type(e).__name__}: {e})", f.loc())
                return last or res
            res.rounds = rnd + 1
            if not res.mismatches:
                res.status = "proved"
                return res
            # second phase: allow every case split before accepting a difference
            bad = soft = None
            try:
                with limit(60 * self.scale):
                    r2 = self.compare(s, label, f, owner, keep, 3000, False)
                if not r2.mismatches:
                    r2.status, r2.rounds = "proved", rnd + 1
                    return r2
                bad, soft = self.classify(r2.mismatches, r2.ev, r2.known)
            except (TooDeep, Budget, RecursionError):
                pass
            except Exception:
                if DEBUG:
                    raise
            if bad is None or bad:
                # of the differences only the exhaustive comparison finds, those with a witness
                sure = [x for x in bad or [] if x[3]]
                bad, soft = self.classify(res.mismatches, res.ev, res.known)
                bad = bad or sure
            if bad:
                res.status = "violated"
                where, c, sp, _ = bad[0]
                res.detail = (where, c, sp)
            else:
                where, c, sp, why = soft[0]
                res.status = "undecided"
                res.detail = f"{why} [{where}]"
            last = res
            vc, vs = {}, {}
            for where, m in res.mismatches:
                for k in vocab(m.code):
                    vc[k] = 1
                for k in vocab(m.spec):
                    vs[k] = 1
            one = {k for k in set(vc) ^ set(vs) if k in keep and k != s.anchor}
            apart = {k for k in set(vocab(res.sides[0])) ^ set(vocab(res.sides[1])) if k in keep and k != s.anchor}
            if res.status == "violated" and not apart:
                firm.append(res)
            if not one:
                one = apart
            if not one:
                # last resort: expand, once, what both sides mention differently
                both = {k for k in set(vc) & set(vs) if k in keep and k != s.anchor}
                if rnd == 0 and both:
                    try:
                        with limit(20 * self.scale):
                            r2 = self.compare(s, label, f, owner, keep - both, 2000)
                        if not r2.mismatches:
                            r2.status, r2.rounds = "proved", 2
                            return r2
                    except (TooDeep, Budget, RecursionError):
                        pass
                    except Exception:
                        if DEBUG:
                            raise
                return res
            keep -= one
        return last

    def keepset(self):
        return {a for a in self.specs if a not in self.dropped}

    def settle_private(self, only=None):
        """Private helpers: keep those that match, expand the others."""
        for a, s in self.specs.items():
            if not s.private:
                continue
            r = self.find(a)
            if r is None:
                self.dropped.add(a)
        changed = True
        while changed:
            changed = False
            keep = self.keepset()
            for a, s in self.specs.items():
                if not s.private or a in self.dropped:
                    continue
                for label, f, owner in self.obligations(s):
                    try:
                        key = ("p", label, frozenset(keep))
                        res = self.memo.get(key)
                        if res is None:
                            with limit(60 * self.scale):
                                res = self.memo[key] = self.compare(s, label, f, owner, keep)
                        ok = not res.mismatches
                    except (TooDeep, Budget, RecursionError):
                        ok = False
                    except Exception:
                        if DEBUG:
                            raise
                        ok = False
                    if not ok:
                        self.dropped.add(a)
                        changed = True
                        break

    def check_consts(self, prop):
        out = []
        for (mod, name), (props, m, e) in self.consts.items():
            if prop is not None and prop not in props:
                continue
            label = f"{mod}.{name}"
            s = Spec(props, label, None)
            ev = self.evaluator(self.keepset())
            r = self.p.lookup(self.p.modules[mod], name) if mod in self.p.modules else None
            if r is None or r[0] not in ("const",):
                if r is not None and r[0] == "frozen":
                    out.append(Result(s, label, "undecided", "constant is assigned at run time"))
                    continue
                out.append(Result(s, label, "violated", ("constant removed", raw("missing"), raw("missing"))))
                continue
            ev.side = "code"
            c = ev.global_value(r, Env(r[1]))
            ev.side = "spec"
            sp = ev.eval(e, Env(m))
            d = Differ(ev)
            ms = d.eqv(c, sp)
            res = Result(s, label, "proved", loc=f"{r[1].relpath}")
            res.steps = d.steps
            if ms:
                bad, soft = self.classify([("value", x) for x in ms], ev, (c, sp))
                if bad:
                    res.status, res.detail = "violated", bad[0][:3]
                else:
                    res.status, res.detail = "undecided", soft[0][3]
            out.append(res)
        return out

    # ------------------------------------------------------------ dependencies

    def mentions(self, s):
        """Anchors the reference refers to by name."""
        if s.anchor in self._mentions:
            return self._mentions[s.anchor]
        out = set()
        byname = {}
        for a in self.specs:
            byname.setdefault(a.rsplit(".", 1)[1], []).append(a)
        for x in ast.walk(s.func.node):
            d = dotted(x) if isinstance(x, (ast.Name, ast.Attribute)) else None
            r = self.p.resolve(s.func.module, d) if d else None
            if r is not None and r[0] == "func":
                q = r[1].qual
                out |= {a for a in self.specs if a == q or self.canonical(a) == q}
            elif isinstance(x, ast.Attribute):
                out |= {a for a in byname.get(x.attr, []) if self.is_method(a)}
        self._mentions[s.anchor] = out - {s.anchor}
        return self._mentions[s.anchor]

    def canonical(self, a):
        r = self.find(a)
        return r[0].qual if r is not None else None

    def is_method(self, a):
        return self.p.classes.get(a.rsplit(".", 1)[0]) is not None

    def callers(self, a):
        """Public anchors through which a private helper is judged."""
        out, seen, todo = set(), {a}, [a]
        while todo:
            x = todo.pop()
            for b, t in self.specs.items():
                if b in seen or x not in self.mentions(t):
                    continue
                seen.add(b)
                if t.private and b in self.dropped:
                    todo.append(b)
                elif not t.private:
                    out.add(b)
        return out

    def results_for(self, a, keep):
        """Decides every implementation of one anchor (memoised)."""
        if a in self._results:
            return self._results[a]
        s = self.specs[a]
        out = []
        if s.private:
            if a in self.dropped:
                out.append(Result(s, a, "expanded", "private helper judged through its callers"))
            else:
                r = self.find(a)
                res = Result(s, a, "proved", "", r[0].loc() if r else "")
                res.rounds = 1
                for k, v in self.memo.items():
                    if k[1] == a:
                        res.sides, res.steps = v.sides, v.steps
                out.append(res)
        else:
            obs = self.obligations(s)
            if not obs:
                out.append(Result(s, a, "violated", ("public function removed", raw("missing"), raw("missing"))))
            for label, f, owner in obs:
                r = self.decide(s, label, f, owner, keep)
                if r.status == "undecided":
                    r = self.helper_differs(s, label, f, owner, keep) or r
                out.append(r)
        self._results[a] = out
        return out

    def helper_differs(self, s, label, f, owner, keep):
        """The caller uses a private helper exactly as the reference does, and the helper computes something else."""
        for d in sorted(self.mentions(s) & self.dropped):
            found = self.find(d)
            if found is None or not self.same_signature(found[0], self.specs[d].func):
                continue
            try:
                with limit(60 * self.scale):
                    if self.compare(s, label, f, owner, set(keep) | {d}).mismatches:
                        continue
                t = self.specs[d]
                for lab, g, own in self.obligations(t):
                    with limit(60 * self.scale):
                        r = self.compare(t, lab, g, own, set(keep) - {d})
                    bad, _ = self.classify(r.mismatches, r.ev, r.known)
                    if bad:
                        r.spec, r.anchor, r.status, r.rounds = s, label, "violated", 1
                        where, c, sp, _ = bad[0]
                        r.detail = (f"in {lab.rsplit('.', 1)[1]} {where}", c, sp)
                        r.loc = g.loc()
                        return r
            except (TooDeep, Budget, RecursionError):
                continue
            except Exception:
                if DEBUG:
                    raise
        return None

    def same_signature(self, f, g):
        a, b = f.node.args, g.node.args
        return ([x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] == [x.arg for x in b.posonlyargs + b.args + b.kwonlyargs]
                and not (a.vararg or a.kwarg or b.vararg or b.kwarg))

    def run(self, prop=None, anchors=None):
        self.settle_private()
        keep = self.keepset()
        self._results, self._mentions = {}, {}
        todo, seen, out = [], set(), []
        scoped = {}
        for a, s in self.specs.items():
            if anchors is not None:
                if a in anchors:
                    todo.append((a, ()))
                continue
            if prop is None or prop in s.props:
                todo.append((a, ()))
            for x in s.props:
                if x.startswith((prop or "?") + ":"):
                    scoped[a] = x.split(":")[1]
        closed = prop is not None and prop not in NO_CLOSURE
        while todo:
            a, via = todo.pop(0)
            if a in seen:
                continue
            seen.add(a)
            scoped.pop(a, None)
            rs = self.results_for(a, keep)
            for r in rs:
                r.via = via
            out += rs
            if prop is None or anchors is not None:
                continue
            if any(r.status == "expanded" for r in rs):
                for b in sorted(self.callers(a)):
                    todo.append((b, via + (a,)))
            if closed:
                deps = set()
                for r in rs:
                    if r.sides is not None:
                        deps |= {k for k in vocab(r.sides[1]) if k in self.specs}
                for b in sorted(deps):
                    todo.append((b, via + (a,)))
        for a, scope in scoped.items():
            for r in self.results_for(a, keep):
                out.append(self.restrict(r, scope))
        if anchors is None:
            out += self.check_consts(prop)
            out += check_models(self, prop, Spec, Result)
            out += check_effects(self, prop, Spec, Result)
            out += check_config(self, prop, Spec, Result)
            out += check_caches(self, prop, Spec, Result)
        return out

    def restrict(self, r, scope):
        """Keeps a violation only if the difference concerns one aspect."""
        n = Result(r.spec, f"{r.anchor}.({scope})", r.status, r.detail, r.loc, r.sides)
        n.steps, n.rounds = r.steps, r.rounds
        if r.status != "violated":
            return n
        bad, _ = self.classify(getattr(r, "mismatches", []), getattr(r, "ev", None), getattr(r, "known", None))
        for where, c, sp, _ in bad:
            if SCOPES[scope](where, c, sp):
                n.detail = (where, c, sp)
                return n
        n.status, n.detail = "undecided", "the function differs in another respect"
        return n


@contextlib.contextmanager
def limit(seconds):
    """Backstop against runaway comparisons (none come near it on code close to the reference)."""
    def stop(*_):
        raise Budget("time")
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds, 1)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def cache_keys(tree):
    """Constant nodes used as keys of an instance dictionary."""
    def inst(e):
        return isinstance(e, ast.Attribute) and e.attr == "__dict__" or (
            isinstance(e, ast.Call) and dotted(e.func) == "vars")
    for x in ast.walk(tree):
        if isinstance(x, ast.Subscript) and inst(x.value):
            k = x.slice
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and inst(x.func.value) and x.args:
            k = x.args[0]
        elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and inst(x.comparators[0]):
            k = x.left
        else:
            continue
        if isinstance(k, ast.Constant) and isinstance(k.value, str):
            yield k


def align_cache_keys(p):
    """The name under which a result is kept is not observable: rename it to the reference's."""
    import difflib
    code, ref = [], set()
    for m in p.modules.values():
        for k in cache_keys(m.tree):
            if m.name.startswith("specs."):
                ref.add(k.value)
            else:
                code.append(k)
    mine = {k.value for k in code}
    free, want = sorted(mine - ref), sorted(ref - mine)
    names = {}
    for k in free:
        best = max(want, key=lambda w: (difflib.SequenceMatcher(None, k, w).ratio(), w), default=None)
        if best is not None:
            names[k] = best
            want.remove(best)
    for k in code:
        k.value = names.get(k.value, k.value)


# properties whose obligations do not extend to what their functions call
NO_CLOSURE = {"C17", "C18", "C30", "C31"}


def is_str(x):
    return x.op == "const" and x.a[0] == "str"


def schema_aspect(where, c, sp):
    v = {**vocab(c), **vocab(sp)}
    return ("pandas.Series" in v or "(keys)" in where or "column" in where
            or is_str(c) and is_str(sp))


def config_aspect(where, c, sp):
    v = {**vocab(c), **vocab(sp)}
    return any("tatc.config" in k for k in v) or "tatc.config" in where


SCOPES = {"schema": schema_aspect, "config": config_aspect}


def describe(lits, why=""):
    parts = []
    for a, v in list(lits.items())[:6]:
        parts.append(("" if v else "not ") + V.show(a)[:160])
    return ("when " + " and ".join(parts) if parts else "always") + (f" ({why})" if why else "")
