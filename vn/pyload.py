"""
Parses the modules under analysis (never imports them) and resolves names.

A Program maps qualified names to functions, classes and module-level constants.
Names are followed through `import`, `from ... import` (relative and absolute),
aliases and package re-exports down to the defining module, or to a dotted external
name such as ``numpy.degrees``.
"""
import ast
import copy
import os


TRANSPARENT = {
    "njit", "jit", "staticmethod", "classmethod", "property", "cached_property", "computed_field", "setter", "getter", "deleter",
    "abstractmethod", "validator", "field_validator", "model_validator", "root_validator", "field_serializer", "model_serializer",
    "wraps", "lru_cache", "cache", "overload", "override", "final", "validate_call", "validate_arguments", "deprecated", "no_type_check",
    "spec", "model", "validation", "profile",
}


class Func:
    __slots__ = ("qual", "node", "module", "cls", "decos", "source")

    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.decos = []

    @property
    def name(self):
        return self.node.name

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]

    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno}"


class Field:
    __slots__ = ("name", "ann", "default", "module", "lineno", "cls")

    def __init__(self, name, ann, default, module, lineno, cls):
        self.name, self.ann, self.default, self.module = name, ann, default, module
        self.lineno, self.cls = lineno, cls


class Class:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.methods = {}
        self.fields = {}
        self.consts = {}
        self.bases = []

    @property
    def name(self):
        return self.node.name


class Module:
    def __init__(self, name, path, relpath, is_pkg):
        self.name, self.path, self.relpath, self.is_pkg = name, path, relpath, is_pkg
        self.names = {}
        self.dynamic = set()
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return None if b is None else b + "." + e.attr
    return None


class Replace(ast.NodeTransformer):
    def __init__(self, names, e):
        self.names, self.e = names, e

    def visit(self, x):
        if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) and dotted(x) in self.names:
            return self.e
        return self.generic_visit(x)


class Program:
    def __init__(self, root, package="tatc", relroot=None):
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.patches = []
        self.package = package
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].split(os.sep)
                    is_pkg = rel[-1] == "__init__"
                    if is_pkg:
                        rel = rel[:-1]
                    self.add_module(".".join(rel), p, os.path.relpath(p, relroot or root), is_pkg)
        self.link()

    def add_module(self, name, path, relpath, is_pkg=False):
        m = Module(name, path, relpath, is_pkg)
        self.modules[name] = m
        return m

    def link(self):
        for m in list(self.modules.values()):
            if not getattr(m, "linked", False):
                self._scan(m, m.tree.body, True)
                m.linked = True
        self.unwrap()
        for c in self.classes.values():
            c.bases = []
            for b in c.node.bases:
                d = dotted(b)
                r = self.resolve(c.module, d) if d else None
                c.bases.append(r)

    # ------------------------------------------------------------ decorators

    def transparent(self, m, d):
        """Decorators that leave what the function computes alone (or that are modelled where they matter)."""
        x = dotted(d.func if isinstance(d, ast.Call) else d)
        if x is None:
            return False
        r = self.resolve(m, x)
        if r is not None and r[0] in ("func", "class", "const", "frozen", "classconst"):
            return False
        return x.split(".")[-1] in TRANSPARENT

    def unwrap(self):
        """@d def f(x): ...   is   def f_(x): ...; def f(x): return d(f_)(x)"""
        for m, t, value in self.patches:
            # C.method = something
            r = self.resolve(m, dotted(t.value))
            if r is not None and r[0] == "class" and t.attr in r[1].methods:
                r[1].methods[t.attr].decos.append(value)
            elif r is not None and r[0] == "module" and r[1].names.get(t.attr, ("",))[0] == "func":
                self.funcs[r[1].names[t.attr][1]].decos.append(value)
        self.patches = []
        for f in list(self.funcs.values()):
            if getattr(f.node, "unwrapped", False) or not isinstance(f.node, ast.FunctionDef):
                continue
            f.node.unwrapped = True
            kept = [d for d in f.node.decorator_list if self.transparent(f.module, d)]
            odd = [d for d in f.node.decorator_list if d not in kept]
            if not (odd or f.decos) or f.module.name.startswith("specs"):
                continue
            fn, plain = f.node, "undecorated_" + f.node.name
            inner = ast.copy_location(ast.FunctionDef(
                name=plain, args=fn.args, body=fn.body, decorator_list=[d for d in kept if dotted(d) == "staticmethod"],
                returns=fn.returns, type_comment=None, type_params=[]), fn)
            inner.unwrapped = True
            g = Func(f.qual.rsplit(".", 1)[0] + "." + plain, inner, f.module, f.cls)
            self.funcs[g.qual] = g
            if f.cls is not None:
                f.cls.methods[plain] = g
                e = ast.Attribute(ast.Name(f.cls.name, ast.Load()), plain, ast.Load())
            else:
                f.module.names[plain] = ("func", g.qual)
                e = ast.Name(plain, ast.Load())
            for d in reversed(odd):
                e = ast.Call(d, [e], [])
            for d in f.decos:
                e = Replace({fn.name, *([f"{f.cls.name}.{fn.name}"] if f.cls is not None else [])}, e).visit(copy.deepcopy(d))
            a = fn.args
            args = [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args]
            kw = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
            if a.vararg:
                args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
            if a.kwarg:
                kw.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
            outer = ast.FunctionDef(
                name=fn.name, args=a, body=[ast.Return(ast.Call(e, args, kw))], decorator_list=kept,
                returns=fn.returns, type_comment=None, type_params=[])
            for x in ast.walk(outer.body[0]):
                ast.copy_location(x, fn)
            f.node = ast.copy_location(outer, fn)
            f.node.unwrapped = True

    def _import_base(self, m, node):
        if node.level == 0:
            return node.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[: -(node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def _scan(self, m, body, top):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.names[a.asname] = ("dotted", a.name)
                    else:
                        m.names[a.name.split(".")[0]] = ("dotted", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._import_base(m, st)
                for a in st.names:
                    m.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f"{m.name}.{st.name}"
                fn = Func(q, st, m)
                self.funcs[q] = fn
                m.names[st.name] = ("func", q)
            elif isinstance(st, ast.ClassDef):
                q = f"{m.name}.{st.name}"
                c = Class(q, st, m)
                for x in st.body:
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = Func(f"{q}.{x.name}", x, m, c)
                        c.methods[x.name] = f
                        self.funcs[f.qual] = f
                    elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                        c.fields[x.target.id] = Field(
                            x.target.id, x.annotation, x.value, m, x.lineno, c
                        )
                    elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                        if x.targets[0].id in c.methods:
                            c.methods[x.targets[0].id].decos.append(x.value)
                        else:
                            c.consts[x.targets[0].id] = x.value
                self.classes[q] = c
                m.names[st.name] = ("class", q)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    old = m.names.get(t.id) if isinstance(t, ast.Name) else None
                    if old is not None and old[0] == "func" and isinstance(st.value, ast.Call):
                        # f = decorate(f)
                        self.funcs[old[1]].decos.append(st.value)
                    elif isinstance(t, ast.Attribute) and dotted(t):
                        self.patches.append((m, t, st.value))
                    elif isinstance(t, ast.Name):
                        self._const(m, t.id, st.value, top)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self._const(
                                    m, e.id,
                                    ast.Subscript(st.value, ast.Constant(k), ast.Load()), top)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self._const(m, st.target.id, st.value, top)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and dotted(st.value.func) == "setattr":
                a = st.value.args
                if len(a) == 3 and dotted(a[0]) and isinstance(a[1], ast.Constant) and isinstance(a[1].value, str):
                    self.patches.append((m, ast.copy_location(ast.Attribute(a[0], a[1].value, ast.Store()), st), a[2]))
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                m.dynamic.add(st.target.id)
            elif isinstance(st, ast.Try):
                for part in (st.body, st.orelse, st.finalbody):
                    self._scan(m, part, False)
                for h in st.handlers:
                    self._scan(m, h.body, False)
            elif isinstance(st, (ast.If, ast.With, ast.For, ast.While)):
                self._scan(m, st.body, False)
                self._scan(m, getattr(st, "orelse", []), False)

    def _const(self, m, name, value, top):
        if name in m.names and m.names[name][0] == "const":
            m.dynamic.add(name)
        if not top:
            m.dynamic.add(name)
        m.names[name] = ("const", value)

    def lookup(self, m, name, seen=()):
        """-> ('func', Func) | ('class', Class) | ('const', module, name, expr)
        | ('module', Module) | ('ext', dotted) | ('from-dynamic', module, name) | None"""
        e = m.names.get(name)
        if e is None:
            sub = self.modules.get(f"{m.name}.{name}")
            if sub is not None and m.is_pkg:
                return ("module", sub)
            return None
        if e[0] == "func":
            return ("func", self.funcs[e[1]])
        if e[0] == "class":
            return ("class", self.classes[e[1]])
        if e[0] == "const":
            return ("const", m, name, e[1])
        if e[0] == "dotted":
            if e[1] in self.modules:
                return ("module", self.modules[e[1]])
            return ("ext", e[1])
        if e[0] == "from":
            base, n = e[1], e[2]
            if base in self.modules:
                bm = self.modules[base]
                if (base, n) in seen:
                    return None
                r = self.lookup(bm, n, seen + ((base, n),))
                if r is None:
                    sub = self.modules.get(f"{base}.{n}")
                    if sub is not None:
                        return ("module", sub)
                    return None
                if r[0] == "const" and r[2] in r[1].dynamic:
                    return ("frozen", r[1], r[2], r[3])
                return r
            if f"{base}.{n}" in self.modules:
                return ("module", self.modules[f"{base}.{n}"])
            return ("ext", f"{base}.{n}")
        return None

    def member(self, r, name):
        """Attribute of a resolved module/class/ext."""
        if r[0] == "module":
            x = self.lookup(r[1], name)
            if x is None:
                sub = self.modules.get(f"{r[1].name}.{name}")
                if sub is not None:
                    return ("module", sub)
            return x
        if r[0] == "ext":
            return ("ext", r[1] + "." + name)
        if r[0] == "class":
            f = self.find_method(r[1], name)
            if f is not None:
                return ("func", f)
            for c in self.mro(r[1]):
                if name in c.consts:
                    return ("classconst", c, name, c.consts[name])
        return None

    def resolve(self, m, dot):
        parts = dot.split(".")
        r = self.lookup(m, parts[0])
        for p in parts[1:]:
            if r is None:
                return None
            r = self.member(r, p)
        return r

    def resolve_qual(self, qual):
        parts = qual.split(".")
        for k in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:k]))
            if m is not None:
                return self.resolve(m, ".".join(parts[k:]))
        return None

    # ------------------------------------------------------------ classes

    def mro(self, c):
        out, seen = [], set()

        def go(k):
            if k.qual in seen:
                return
            seen.add(k.qual)
            out.append(k)
            for b in k.bases:
                if b is not None and b[0] == "class":
                    go(b[1])

        go(c)
        return out

    def is_sub(self, a, b):
        return any(k.qual == b.qual for k in self.mro(a))

    def subclasses(self, c):
        return [k for k in self.classes.values() if k is not c and self.is_sub(k, c)]

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def all_fields(self, c):
        out = {}
        for k in reversed(self.mro(c)):
            for n, f in k.fields.items():
                out[n] = f
        return out

    def ext_bases(self, c):
        out = []
        for k in self.mro(c):
            for b in k.bases:
                if b is not None and b[0] == "ext":
                    out.append(b[1])
        return out

    def is_model(self, c):
        return any(b.endswith("BaseModel") for b in self.ext_bases(c))

    def is_enum(self, c):
        return any(b.endswith("Enum") for b in self.ext_bases(c))
