"""Behaviour-preserving rewrites of every function, on which every check must stay quiet.

tools/refactor.py [file-substring] [function-substring] [--max=N] [--only=name]
"""
import ast
import copy
import multiprocessing as mp
import os
import random
import shutil
import sys
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
ROOT = "/repo/src/tatc"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def funcs(tree):
    out = []

    def walk(n, pre, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                out.append((pre + c.name, c, n))
            elif isinstance(c, ast.ClassDef):
                walk(c, pre + c.name + ".", c)
    walk(tree, "", None)
    return out


def locals_of(f):
    a = f.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    out = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            return set(), params
    # parameters of nested functions and lambdas shadow
    for x in ast.walk(f):
        if isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not f:
            for y in x.args.args:
                out.discard(y.arg)
                params = params | {y.arg}
    return out - params, params


def rename(f):
    ls, _ = locals_of(f)
    if not ls:
        return False
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id in ls:
            x.id = "the_" + x.id.lstrip("_") + ("_in" if x.id.startswith("_") else "")
    return True


def blocks(f):
    for x in ast.walk(f):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(x, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, fld, b


def invert_ifs(f):
    n = 0
    for x in ast.walk(f):
        if isinstance(x, ast.If) and x.orelse:
            x.test = ast.UnaryOp(ast.Not(), x.test)
            x.body, x.orelse = x.orelse, x.body
            n += 1
        elif isinstance(x, ast.IfExp):
            x.test = ast.UnaryOp(ast.Not(), x.test)
            x.body, x.orelse = x.orelse, x.body
            n += 1
    return n


def else_after_return(f):
    """if c: return a; rest  ->  if c: return a else: rest"""
    n = 0
    for x, fld, b in list(blocks(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                n += 1
                break
    return n


def flatten_else(f):
    """if c: ...return else: rest -> early return"""
    n = 0
    for x, fld, b in list(blocks(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                b[i + 1:i + 1] = s.orelse
                s.orelse = []
                n += 1
            i += 1
    return n


def single_return(f):
    """return e -> result = e; return result"""
    n = 0
    for x, fld, b in list(blocks(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                b[i:i + 1] = [ast.Assign([ast.Name("outcome", ast.Store())], s.value), ast.Return(ast.Name("outcome", ast.Load()))]
                n += 1
                i += 1
            i += 1
    return n


def ternary_to_if(f):
    n = 0
    for x, fld, b in list(blocks(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                e = s.value
                b[i] = ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
                n += 1
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                e = s.value
                b[i] = ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])
                n += 1
    return n


def if_to_ternary(f):
    n = 0
    for x, fld, b in list(blocks(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                p, q = s.body[0], s.orelse[0]
                if isinstance(p, ast.Assign) and isinstance(q, ast.Assign) and ast.dump(p.targets[0]) == ast.dump(q.targets[0]):
                    b[i] = ast.Assign(p.targets, ast.IfExp(s.test, p.value, q.value))
                    n += 1
                elif isinstance(p, ast.Return) and isinstance(q, ast.Return) and p.value and q.value:
                    b[i] = ast.Return(ast.IfExp(s.test, p.value, q.value))
                    n += 1
    return n


def build_loop(c, acc):
    inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [c.elt], []))]
    for g in reversed(c.generators):
        for t in reversed(g.ifs):
            inner = [ast.If(t, inner, [])]
        inner = [ast.For(g.target, g.iter, inner, [])]
    return [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load()))] + inner


def comp_names_clash(f, c):
    ts = {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    inside = {id(y) for y in ast.walk(c)}
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and id(x) not in inside and x.id in ts:
            return True
        if isinstance(x, ast.arg) and x.arg in ts:
            return True
    return False


def comp_to_loop(f):
    """Every list comprehension that is evaluated unconditionally first in its statement."""
    n = 0
    for x, fld, b in list(blocks(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
                v = s.value
                cand = None
                if isinstance(v, ast.ListComp):
                    cand = v
                elif isinstance(v, ast.Call):
                    for a in list(v.args) + [k.value for k in v.keywords]:
                        if isinstance(a, ast.ListComp):
                            cand = a
                            break
                if cand is not None and not comp_names_clash(f, cand):
                    acc = f"items_{n}"
                    loop = build_loop(cand, acc)
                    class R(ast.NodeTransformer):
                        def visit_ListComp(self, node):
                            return ast.Name(acc, ast.Load()) if node is cand else node
                    b[i] = R().visit(s)
                    b[i:i] = loop
                    i += len(loop)
                    n += 1
            i += 1
    return n


def hoist(f):
    """Names the arguments of calls that are evaluated unconditionally."""
    n = 0
    params = locals_of(f)[1]

    def simple(e):
        return isinstance(e, (ast.Name, ast.Constant, ast.Attribute, ast.Lambda, ast.Starred, ast.GeneratorExp))
    for x, fld, b in list(blocks(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and not (
                    isinstance(s, ast.Assign) and not isinstance(s.targets[0], (ast.Name, ast.Tuple))):
                pre = []

                def go(e, depth=0):
                    nonlocal n
                    if isinstance(e, ast.BinOp):
                        for fl in ("left", "right"):
                            c = getattr(e, fl)
                            go(c, depth + 1)
                            if isinstance(c, (ast.BinOp, ast.Call)) and n % 2 == 0 and depth < 3:
                                nm = f"part_{n}"
                                pre.append(ast.Assign([ast.Name(nm, ast.Store())], c))
                                setattr(e, fl, ast.Name(nm, ast.Load()))
                            n += 1
                    elif isinstance(e, ast.Call):
                        for k, a in enumerate(e.args):
                            if simple(a):
                                continue
                            go(a, depth + 1)
                            nm = f"part_{n}"
                            n += 1
                            pre.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                            e.args[k] = ast.Name(nm, ast.Load())
                        for k in e.keywords:
                            if simple(k.value):
                                continue
                            go(k.value, depth + 1)
                            nm = f"part_{n}"
                            n += 1
                            pre.append(ast.Assign([ast.Name(nm, ast.Store())], k.value))
                            k.value = ast.Name(nm, ast.Load())
                go(s.value)
                b[i:i] = pre
                i += len(pre)
            i += 1
    return n


def split_bool(f):
    """if a and b: X  ->  if a: if b: X   (no else)"""
    n = 0
    for x in ast.walk(f):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            vs = x.test.values
            inner = x.body
            for v in reversed(vs[1:]):
                inner = [ast.If(v, inner, [])]
            x.test, x.body = vs[0], inner
            n += 1
    return n


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def flip_compare(f):
    n = 0

    class R(ast.NodeTransformer):
        def visit_Compare(self, e):
            nonlocal n
            self.generic_visit(e)
            if len(e.ops) == 1 and type(e.ops[0]) in FLIP:
                n += 1
                return ast.Compare(e.comparators[0], [FLIP[type(e.ops[0])]()], [e.left])
            if len(e.ops) == 2 and isinstance(e.comparators[0], (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                n += 1
                m = e.comparators[0]
                return ast.BoolOp(ast.And(), [ast.Compare(e.left, [e.ops[0]], [m]),
                                              ast.Compare(copy.deepcopy(m), [e.ops[1]], [e.comparators[1]])])
            return e
    for s in f.body:
        R().visit(s)
    return n


def dn(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dn(e.value)
        return b and b + "." + e.attr


def idioms(f):
    """Equivalent library spellings."""
    n = 0
    np_ = lambda a: ast.Attribute(ast.Name("np", ast.Load()), a, ast.Load())

    class R(ast.NodeTransformer):
        def visit_Call(self, e):
            nonlocal n
            self.generic_visit(e)
            d = dn(e.func)
            if d == "np.radians":
                n += 1
                e.func = np_("deg2rad")
            elif d == "np.degrees":
                n += 1
                e.func = np_("rad2deg")
            elif d == "np.mod":
                n += 1
                return ast.BinOp(e.args[0], ast.Mod(), e.args[1])
            elif d == "np.divide":
                n += 1
                return ast.BinOp(e.args[0], ast.Div(), e.args[1])
            elif d == "np.multiply":
                n += 1
                return ast.BinOp(e.args[0], ast.Mult(), e.args[1])
            elif d == "np.power":
                n += 1
                return ast.BinOp(e.args[0], ast.Pow(), e.args[1])
            elif d == "np.abs":
                n += 1
                e.func = np_("absolute")
            elif d == "np.around":
                n += 1
                e.func = np_("round")
            elif d == "isinstance" and isinstance(e.args[1], ast.Tuple):
                n += 1
                return ast.BoolOp(ast.Or(), [ast.Call(e.func, [copy.deepcopy(e.args[0]), t], []) for t in e.args[1].elts])
            return e

        def visit_BinOp(self, e):
            nonlocal n
            self.generic_visit(e)
            if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and e.right.value == 2 and isinstance(e.left, (ast.Name, ast.Attribute)):
                n += 1
                return ast.BinOp(e.left, ast.Mult(), copy.deepcopy(e.left))
            if isinstance(e.op, ast.Mult) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, (int, float)):
                n += 1
                return ast.BinOp(e.right, ast.Mult(), e.left)
            return e
    for s in f.body:
        R().visit(s)
    return n


def dict_build(f):
    """x = {..} -> incremental assignments; return {...}"""
    n = 0
    for x, fld, b in list(blocks(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Dict) and isinstance(s.targets[0], ast.Name) and s.value.keys and all(k is not None for k in s.value.keys):
                d = s.value
                nm = s.targets[0].id
                uses = any(isinstance(y, ast.Name) and y.id == nm for y in ast.walk(d))
                if not uses:
                    post = [ast.Assign([ast.Subscript(ast.Name(nm, ast.Load()), k, ast.Store())], v) for k, v in zip(d.keys, d.values)]
                    s.value = ast.Dict([], [])
                    b[i + 1:i + 1] = post
                    i += len(post)
                    n += 1
            i += 1
    return n


def enum_to_range(f):
    n = 0
    for x in ast.walk(f):
        gens = x.generators if isinstance(x, (ast.ListComp, ast.GeneratorExp)) else [x] if isinstance(x, ast.For) else []
        for g in gens:
            if isinstance(g.iter, ast.Call) and dn(g.iter.func) == "enumerate" and isinstance(g.target, ast.Tuple) \
                    and isinstance(g.target.elts[0], ast.Name) and isinstance(g.target.elts[1], ast.Name) \
                    and isinstance(g.iter.args[0], ast.Name):
                i, v = g.target.elts[0].id, g.target.elts[1].id
                seq = g.iter.args[0]
                if v == "_":
                    continue

                class R(ast.NodeTransformer):
                    def visit_Name(self, e):
                        if e.id == v and isinstance(e.ctx, ast.Load):
                            return ast.Subscript(copy.deepcopy(seq), ast.Name(i, ast.Load()), ast.Load())
                        return e
                if isinstance(x, ast.For):
                    x.body = [R().visit(s) for s in x.body]
                else:
                    if len(x.generators) > 1:
                        continue
                    x.elt = R().visit(x.elt)
                    g.ifs = [R().visit(t) for t in g.ifs]
                g.target = ast.Name(i, ast.Store())
                g.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [seq], [])], [])
                n += 1
    return n


def lambda_to_def(f):
    n = 0
    for x, fld, b in list(blocks(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None:
                comp = {id(z) for y in ast.walk(s) if isinstance(y, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.Lambda)) for z in ast.walk(y) if z is not y}
                pre = []

                class R(ast.NodeTransformer):
                    def visit_Lambda(self, e):
                        nonlocal n
                        if id(e) in comp:
                            return e
                        nm = f"_fn_{n}"
                        n += 1
                        pre.append(ast.FunctionDef(nm, e.args, [ast.Return(e.body)], [], None, None, type_params=[]))
                        return ast.Name(nm, ast.Load())
                b[i] = R().visit(s)
                b[i:i] = pre
                i += len(pre)
            i += 1
    return n


def reads(s):
    return {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}


def writes(s):
    return {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def reorder(f):
    """Swaps adjacent assignments of independent names."""
    n = 0
    for x, fld, b in list(blocks(f)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(u, ast.Assign) and isinstance(u.targets[0], ast.Name) for u in (s, t)) \
                    and not (writes(s) & reads(t)) and not (writes(t) & reads(s)):
                b[i], b[i + 1] = t, s
                n += 1
                i += 1
            i += 1
    return n


def extract_tail(f, parent, tree):
    """Moves the second half of the body to a helper function at module level."""
    body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    doc = f.body[: len(f.body) - len(body)]
    if len(body) < 2 or any(isinstance(x, (ast.Yield, ast.Global, ast.Nonlocal)) for x in ast.walk(f)):
        return 0
    if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)):
        return 0
    k = len(body) // 2
    head, tail = body[:k], body[k:]
    if any(isinstance(x, ast.FunctionDef) for s in head for x in ast.walk(s)):
        return 0
    a = f.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    defined = set(params)
    sure = set(params)
    for s in head:
        defined |= writes(s)
        if isinstance(s, ast.Assign):
            sure |= writes(s)
        elif isinstance(s, ast.If) and s.orelse:
            sure |= set.intersection(*[set().union(*[writes(q) for q in br]) for br in (s.body, s.orelse)])
    need = sorted(set().union(*[reads(s) for s in tail]) & defined)
    if not set(need) <= sure:
        return 0
    nm = "_" + f.name.lstrip("_") + "_rest"
    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x, None) for x in need], None, [], [], None, []), tail, list(f.decorator_list) if not isinstance(parent, ast.ClassDef) else [], None, None, type_params=[])
    call = ast.Return(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in need], []))
    f.body = doc + head + [call]
    top = f if parent is tree else parent
    tree.body.insert(tree.body.index(top), h)
    return 1


def extract_expr(f, parent, tree):
    """Moves the largest arithmetic or call expression to a helper."""
    a = f.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    ls = locals_of(f)[0]
    best = None
    bound = {}
    for x in ast.walk(f):
        if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp)):
            for y in ast.walk(x):
                bound[id(y)] = True
    for s in ast.walk(f):
        if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
            for e in ast.walk(s.value):
                if isinstance(e, (ast.BinOp, ast.Call)) and id(e) not in bound and e is not s.value:
                    names = {y.id for y in ast.walk(e) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
                    inner = {y.id for y in ast.walk(e) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                    if inner & (ls & names - inner):
                        continue
                    size = sum(1 for _ in ast.walk(e))
                    if size > 8 and (best is None or size > best[0]):
                        best = (size, e, s, sorted((names - inner) & (params | ls)))
    if best is None:
        return 0
    _, e, s, need = best
    nm = "_" + f.name.lstrip("_") + "_part"
    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x, None) for x in need], None, [], [], None, []), [ast.Return(copy.deepcopy(e))],
                        list(f.decorator_list) if not isinstance(parent, ast.ClassDef) else [], None, None, type_params=[])

    class R(ast.NodeTransformer):
        def visit(self, y):
            if y is e:
                return ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
            return self.generic_visit(y)
    s.value = R().visit(s.value)
    top = f if parent is tree else parent
    tree.body.insert(tree.body.index(top), h)
    return 1


def aug(f):
    """x = x + e <-> x += e; nothing statement; assert isinstance-free no-ops"""
    body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    doc = f.body[: len(f.body) - len(body)]
    f.body = doc + [ast.Pass(), ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None))] + body
    return 1


def annotate(f):
    """Plain assignments become annotated ones."""
    n = 0
    for x, fld, b in list(blocks(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                b[i] = ast.AnnAssign(s.targets[0], ast.Name("object", ast.Load()), s.value, 1)
                n += 1
    return n


def while_loop(f):
    """for x in xs: -> index loop"""
    n = 0
    for x, fld, b in list(blocks(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and not s.orelse and not any(
                    isinstance(y, (ast.Continue, ast.Break)) for y in ast.walk(s)):
                s.body.insert(0, ast.Assign([s.target], ast.Subscript(s.iter, ast.Name("idx_", ast.Load()), ast.Load())))
                s.target = ast.Name("idx_", ast.Store())
                s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(s.iter)], [])], [])
                n += 1
    return n


def combo(f, parent, tree):
    n = bool(rename(f)) + invert_ifs(f) + bool(single_return(f)) + flip_compare(f)
    n += ternary_to_if(f) + dict_build(f)
    return n


ONE = [rename, invert_ifs, else_after_return, flatten_else, single_return, ternary_to_if, if_to_ternary, comp_to_loop, hoist,
       split_bool, flip_compare, idioms, dict_build, enum_to_range, lambda_to_def, reorder, aug, annotate, while_loop]
THREE = [extract_tail, extract_expr, combo]


def variants(src, ff, only):
    base = ast.parse(src)
    for i, (name, _, _) in enumerate(funcs(base)):
        if ff not in name:
            continue
        for t in ONE + THREE:
            if only and t.__name__ != only:
                continue
            tree = copy.deepcopy(base)
            _, f, parent = funcs(tree)[i]
            if any("validator" in ast.unparse(d) for d in f.decorator_list) and t in THREE:
                continue
            n = t(f) if t in ONE else t(f, parent, tree)
            if n:
                ast.fix_missing_locations(tree)
                yield t.__name__, name, ast.unparse(tree)


def work(job):
    rel, t, fn, src = job
    import vn.check as C
    d = f"/tmp/refw/{os.getppid()}/{os.getpid()}"
    if not os.path.isdir(d):
        os.makedirs(d)
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    p = os.path.join(d, "src", "tatc", rel)
    orig = open(os.path.join(ROOT, rel)).read()
    open(p, "w").write(src)
    try:
        from vn.cli import text
        compile(src, rel, "exec")
        ctx = C.Context(repo=d)
        res = ctx.run()
        for q in ("C06", "C17", "C18", "C30", "C31"):
            res += ctx.run(q) if q in ("C18", "C30", "C06") else []
        known = {"to_tle:kept-result", "get_closest_tle_index:kept-result", "get_repeat_cycle:kept-result"}
        v = [r for r in res if r.status == "violated" and r.anchor not in known]
        u = [r for r in res if r.status == "undecided"]
        if v:
            return rel, fn, t, "ALARM", v[0].anchor + " " + text(v[0].detail)[:600]
        if u:
            return rel, fn, t, "undecided", u[0].anchor + " " + text(u[0].detail)[:200]
        return rel, fn, t, "quiet", ""
    except Exception as e:
        import traceback
        return rel, fn, t, "error", traceback.format_exc()[-300:]
    finally:
        open(p, "w").write(orig)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    fs = args[0] if args else ""
    ff = args[1] if len(args) > 1 else ""
    opt = dict(a[2:].split("=") for a in sys.argv[1:] if a.startswith("--"))
    jobs = []
    for d, _, names in os.walk(ROOT):
        for f in sorted(names):
            rel = os.path.relpath(os.path.join(d, f), ROOT)
            if f.endswith(".py") and fs in rel:
                src = open(os.path.join(d, f)).read()
                jobs += [(rel, t, fn, s) for t, fn, s in variants(src, ff, opt.get("only"))]
    random.seed(1)
    if "dump" in opt:
        for rel, t, fn, s in jobs:
            print(s)
        return
    if int(opt.get("max", 0)) and len(jobs) > int(opt["max"]):
        jobs = random.sample(jobs, int(opt["max"]))
    print(len(jobs), "variants", flush=True)
    c = Counter()
    with mp.Pool(int(os.environ.get("P", "8"))) as pool:
        for r in pool.imap_unordered(work, jobs, chunksize=2):
            c[r[3]] += 1
            if r[3] != "quiet":
                print(*r[:3], "|", r[3], r[4], flush=True)
    print(c)
    shutil.rmtree(f"/tmp/refw/{os.getpid()}", ignore_errors=True)


if __name__ == "__main__":
    main()
