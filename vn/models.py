"""
Field tables of the public models, read from the class bodies.

Each field is reduced to (type, required or default value, limits, validator functions); the
table of the repository class is compared with that of the reference class.
"""
import ast
import os
from fractions import Fraction as Fr

from . import nodes as V
from .diff import Differ
from .evalr import Env
from .nodes import num, numval, raw, sym, NONE
from .pyload import dotted, Func

INT = ("int",)
FLOAT = ("float",)
SHORT = {
    "NonNegativeInt": (INT, {"ge": 0}), "PositiveInt": (INT, {"gt": 0}),
    "NegativeInt": (INT, {"lt": 0}), "NonPositiveInt": (INT, {"le": 0}),
    "NonNegativeFloat": (FLOAT, {"ge": 0}), "PositiveFloat": (FLOAT, {"gt": 0}),
    "NegativeFloat": (FLOAT, {"lt": 0}), "NonPositiveFloat": (FLOAT, {"le": 0}),
}
CON = {"conint": INT, "confloat": FLOAT, "constr": ("str",)}
LIMITS = ("ge", "gt", "le", "lt", "min_length", "max_length", "multiple_of", "pattern", "strict",
          "alias", "validation_alias", "frozen", "discriminator", "init", "exclude", "union_mode",
          "allow_inf_nan", "validate_default")
COSMETIC = ("description", "examples", "title", "json_schema_extra", "repr", "deprecated")


class Unknown(Exception):
    pass


OUTSIDE = Unknown if os.environ.get("VN_DEBUG") else Exception


class FieldInfo:
    def __init__(self):
        self.type = None
        self.required = True
        self.default = None       # AST expression and module
        self.limits = {}          # name -> node
        self.validators = []      # (expr, module) applied in order
        self.loc = ""


class Reader:
    def __init__(self, ctx, ev, side):
        self.ctx, self.ev, self.side = ctx, ev, side
        self.p = ctx.p

    def value(self, e, m):
        self.ev.side = self.side
        return self.ev.eval(e, Env(m))

    def limits_from(self, kws, m, info):
        for k in kws:
            if k.arg in LIMITS:
                info.limits[k.arg] = self.value(k.value, m)
            elif k.arg in COSMETIC or k.arg in ("default", "default_factory"):
                pass
            else:
                raise Unknown(f"field option {k.arg}")

    def ann(self, e, m, info, top=True):
        """Type tree; constraints found at top level go to info."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            e = ast.parse(e.value, mode="eval").body
        if isinstance(e, ast.Constant) and e.value is None:
            return ("none",)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.union([self.ann(e.left, m, info, False), self.ann(e.right, m, info, False)])
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ""
            n = d.split(".")[-1]
            if n in CON and not e.args:
                tmp = FieldInfo()
                self.limits_from(e.keywords, m, tmp)
                return self.constrained(CON[n], tmp.limits, info, top)
            raise Unknown("annotation call " + d)
        if isinstance(e, ast.Subscript):
            d = dotted(e.value) or ""
            n = d.split(".")[-1]
            el = list(e.slice.elts) if isinstance(e.slice, ast.Tuple) else [e.slice]
            if n == "Optional":
                return self.union([self.ann(el[0], m, info, False), ("none",)])
            if n == "Union":
                return self.union([self.ann(x, m, info, False) for x in el])
            if n in ("List", "list", "Sequence"):
                return ("list", self.ann(el[0], m, info, False))
            if n in ("Tuple", "tuple", "Dict", "dict", "Set", "set"):
                return (n.lower(),) + tuple(
                    ("...",) if isinstance(x, ast.Constant) and x.value is Ellipsis
                    else self.ann(x, m, info, False) for x in el)
            if n == "Literal":
                return ("literal",) + tuple(sorted(repr(x.value) if isinstance(x, ast.Constant) else ast.dump(x) for x in el))
            if n == "Annotated":
                t = self.ann(el[0], m, info, top)
                for x in el[1:]:
                    d2 = (dotted(x.func) or "").split(".")[-1] if isinstance(x, ast.Call) else ""
                    if d2 == "Field":
                        tmp = FieldInfo()
                        self.limits_from(x.keywords, m, tmp)
                        t = self.constrained(t, tmp.limits, info, top)
                    elif d2 == "AfterValidator" and top and x.args:
                        info.validators.append((x.args[0], m))
                    elif d2 in ("Ge", "Gt", "Le", "Lt", "MinLen", "MaxLen") and (x.args or x.keywords):
                        v = x.args[0] if x.args else x.keywords[0].value
                        k = {"MinLen": "min_length", "MaxLen": "max_length"}.get(d2, d2.lower())
                        t = self.constrained(t, {k: self.value(v, m)}, info, top)
                    else:
                        raise Unknown("annotation " + ast.unparse(x))
                return t
            raise Unknown("annotation " + d)
        d = dotted(e)
        if d is None:
            raise Unknown("annotation " + ast.unparse(e))
        n = d.split(".")[-1]
        r = self.p.resolve(m, d)
        if r is None:
            if d in ("int", "float", "str", "bool", "list", "dict", "tuple", "set", "bytes", "object"):
                return (d,)
            raise Unknown("type " + d)
        if r[0] == "class":
            return ("class", r[1].qual)
        if r[0] == "ext":
            if n in SHORT and r[1].startswith(("pydantic", "annotated_types")):
                t, lim = SHORT[n]
                return self.constrained(t, {k: num(v) for k, v in lim.items()}, info, top)
            return ("ext", r[1])
        if r[0] == "const":
            return self.ann(r[3], r[1], info, top)
        raise Unknown("type " + d)

    def constrained(self, t, limits, info, top):
        if top:
            info.limits.update(limits)
            return t
        return ("con", t, tuple(sorted((k, v.id) for k, v in limits.items())))

    def union(self, ts):
        out = []
        for t in ts:
            for u in (t[1:] if t[0] == "union" else (t,)):
                if u not in out:
                    out.append(u)
        # the position of None is immaterial
        rest = [t for t in out if t != ("none",)]
        if len(rest) == 1 and len(out) == 1:
            return out[0]
        return ("union",) + tuple(rest) + ((("none",),) if len(rest) < len(out) else ())

    def field(self, f):
        info = FieldInfo()
        m = f.module
        info.loc = f"{m.relpath}:{f.lineno}"
        info.type = self.ann(f.ann, m, info)
        d = f.default
        if d is None:
            return info
        if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "Field":
            self.limits_from(d.keywords, m, info)
            src = None
            if d.args:
                src = d.args[0]
            for k in d.keywords:
                if k.arg == "default":
                    src = k.value
                if k.arg == "default_factory":
                    info.required = False
                    info.default = ("factory", k.value, m)
                    return info
            if src is not None and not (isinstance(src, ast.Constant) and src.value is Ellipsis):
                info.required = False
                info.default = ("value", src, m)
            return info
        if isinstance(d, ast.Constant) and d.value is Ellipsis:
            return info
        info.required = False
        info.default = ("value", d, m)
        return info

    def default(self, info):
        kind, e, m = info.default
        self.ev.side = self.side
        if kind == "factory":
            return self.ev.apply(self.ev.eval(e, Env(m)), [], {}, Env(m), e)
        return self.ev.eval(e, Env(m))


def interval(info):
    """Limits as comparable data: strict integer bounds become closed ones."""
    lim = dict(info.limits)
    out = {}
    isint = info.type == INT
    for k, v in lim.items():
        x = numval(v)
        if k in ("gt", "lt") and isint and x is not None and x.denominator == 1:
            k2 = {"gt": "ge", "lt": "le"}[k]
            out[k2] = num(x + 1 if k == "gt" else x - 1)
        else:
            out[k] = v
    # a redundant weaker bound next to a stronger one
    for a, b, f in (("ge", "gt", max), ("le", "lt", min)):
        if a in out and b in out:
            x, y = numval(out[a]), numval(out[b])
            if x is not None and y is not None:
                if (x <= y if a == "ge" else x >= y):
                    del out[a]
                else:
                    del out[b]
    return out


def decorated(c, p, names):
    """Methods of a class carrying one of the validator decorators."""
    out = []
    for k in reversed(p.mro(c)):
        for f in k.methods.values():
            for d in f.node.decorator_list:
                x = d.func if isinstance(d, ast.Call) else d
                n = (dotted(x) or "").split(".")[-1]
                if n in names:
                    out.append((f, d, n))
    return out


def kwarg(d, name, default=None):
    if isinstance(d, ast.Call):
        for k in d.keywords:
            if k.arg == name and isinstance(k.value, ast.Constant):
                return k.value.value
    return default


def synth(ctx, module, name, body, args):
    """A function in a module's namespace, not part of the program."""
    src = f"def {name}({args}):\n" + "".join("    " + l + "\n" for l in body)
    fn = ast.parse(src).body[0]
    return Func(f"{module.name}.{name}", fn, module)


def field_validators(c, p, field):
    out = []
    for f, d, n in decorated(c, p, ("field_validator", "validator")):
        args = [a.value for a in d.args if isinstance(a, ast.Constant)] if isinstance(d, ast.Call) else []
        if field in args or "*" in args:
            if kwarg(d, "mode", "after") != "after":
                raise Unknown("validator mode")
            out.append(f)
    return out


# ---------------------------------------------------------------- comparison

HOOKS = ("__init__", "model_post_init", "__new__", "__setattr__", "__getattribute__",
         "__getattr__", "__init_subclass__", "__get_pydantic_core_schema__", "__eq__", "__iter__")
BASIC = {"int", "float", "str", "bool", "none", "list", "dict", "tuple", "set", "class",
         "literal", "union", "ext", "con"}


def known(t):
    return t[0] in BASIC and (
        t[0] in ("class", "literal", "con") or t[0] != "ext" or t[1].startswith(("datetime.", "pydantic.", "typing."))
    ) and all(known(x) for x in t[1:] if isinstance(x, tuple) and t[0] in ("list", "union", "tuple", "dict"))


def same_type(p, c, s):
    """True, False (different) or None (cannot tell)."""
    if c == s:
        return True
    if c[0] == "union" or s[0] == "union":
        cs = list(c[1:]) if c[0] == "union" else [c]
        ss = list(s[1:]) if s[0] == "union" else [s]
        for x in ss:
            if x not in cs:
                if any(same_type(p, y, x) is not False for y in cs):
                    return None
                return False if known(c) else None
        # a subclass listed after its base can be shadowed
        def order(ts):
            out = set()
            for i, a in enumerate(ts):
                for b in ts[i + 1:]:
                    if a[0] == b[0] == "class" and a in ss and b in ss:
                        ka, kb = p.classes[a[1]], p.classes[b[1]]
                        if p.is_sub(ka, kb) or p.is_sub(kb, ka):
                            out.add((a, b))
            return out
        if order(cs) != order(ss):
            return False
        return True
    if c[0] == s[0] and c[0] in ("list", "tuple", "dict", "set") and len(c) == len(s):
        rs = [same_type(p, a, b) for a, b in zip(c[1:], s[1:])]
        return False if False in rs else (None if None in rs else True)
    if not known(c):
        return None
    return False


def guard_lines(info):
    out = []
    lim = interval(info)
    for k, v in sorted(lim.items()):
        x = numval(v)
        if k in ("ge", "gt", "le", "lt", "min_length", "max_length"):
            if x is None:
                raise Unknown(f"limit {k} is not a number")
            lit = f"({x.numerator}/{x.denominator})" if x.denominator != 1 else f"({x.numerator})"
            cond = {"ge": f"v < {lit}", "gt": f"v <= {lit}", "le": f"v > {lit}", "lt": f"v >= {lit}",
                    "min_length": f"len(v) < {lit}", "max_length": f"len(v) > {lit}"}[k]
            out.append(f"if {cond}: raise ValueError")
        else:
            raise Unknown(f"field option {k}")
    return out


def inline_def(f, name):
    """Source of a validator as a plain nested function of one value."""
    import copy
    n = copy.deepcopy(f.node)
    static = False
    for d in n.decorator_list:
        x = d.func if isinstance(d, ast.Call) else d
        last = (dotted(x) or "").split(".")[-1]
        if last == "staticmethod":
            static = True
        elif last not in ("classmethod", "field_validator", "validator"):
            raise Unknown("decorator " + last)
    n.decorator_list = []
    n.name = name
    if f.cls is not None and not static:
        first = n.args.args[0].arg
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id == first:
                raise Unknown("validator uses its class")
        n.args.args = n.args.args[1:]
    if len(n.args.args) != 1 or n.args.kwonlyargs or n.args.vararg or n.args.kwarg:
        raise Unknown("validator signature")
    n.returns = None
    ast.fix_missing_locations(n)
    return ast.unparse(n).split("\n")


def field_function(ctx, rd, c, info, module):
    lines = guard_lines(info)
    for e, m in info.validators:
        if m is not module:
            raise Unknown("validator defined through another module")
        lines.append(f"v = ({ast.unparse(e)})(v)")
    for k, f in enumerate(field_validators(c, ctx.p, info.name)):
        if f.module is not module:
            raise Unknown("validator defined in another module")
        lines += inline_def(f, f"check_{k}") + [f"v = check_{k}(v)"]
    lines.append("return v")
    return synth(ctx, module, "validate_" + info.name, lines, "v")


def model_function(ctx, c):
    vs = []
    for f, d, n in decorated(c, ctx.p, ("model_validator", "root_validator")):
        if n != "model_validator" or kwarg(d, "mode") != "after":
            raise Unknown("model validator mode")
        vs.append(f)
    lines = [f"self = self.{f.name}()" for f in vs] + ["return self"]
    return synth(ctx, c.module, "validate_model", lines, "self"), vs


def check_models(ctx, prop, Spec, Result):
    out = []
    p = ctx.p
    for props, anchor, sc in ctx.models:
        if prop is not None and prop not in props:
            continue
        r = p.resolve_qual(anchor)
        s = Spec(props, anchor, None)
        if r is None or r[0] != "class":
            out.append(Result(s, anchor, "violated", ("public model removed", raw("missing"), raw("missing"))))
            continue
        c = r[1]
        loc = f"{c.module.relpath}:{c.node.lineno}"
        if p.is_enum(sc):
            out += check_enum(ctx, s, anchor, c, sc, loc, Result)
            continue
        if not p.is_model(c):
            out.append(Result(s, anchor, "undecided", "not a plain model class", loc))
            continue
        odd = [n for k in p.mro(c) for n in list(k.methods) + list(k.consts) if n in HOOKS + ("model_config",)]
        base = [d for k in p.mro(c) for d in k.node.decorator_list]
        if odd or base or any(len(k.node.keywords) for k in p.mro(c)):
            out.append(Result(s, anchor, "undecided", "model hook " + ", ".join(odd), loc))
        code, ref = p.all_fields(c), p.all_fields(sc)
        for n, f in ref.items():
            label = f"{anchor}.{n}"
            fs = Spec(props, label, None)
            if n not in code:
                out.append(Result(fs, label, "violated", ("field removed", raw("missing"), raw("missing")), loc))
                continue
            try:
                out.append(check_field(ctx, fs, label, c, code[n], sc, f, Spec, Result))
            except OUTSIDE as e:
                out.append(Result(fs, label, "undecided", str(e), f"{code[n].module.relpath}:{code[n].lineno}"))
        for n, f in code.items():
            if n in ref or (isinstance(f.ann, ast.Subscript) and (dotted(f.ann.value) or "").endswith("ClassVar")):
                continue
            label = f"{anchor}.{n}"
            fs = Spec(props, label, None)
            try:
                ev = ctx.evaluator(ctx.keepset())
                info = Reader(ctx, ev, "code").field(f)
                if info.required:
                    out.append(Result(fs, label, "violated",
                                      ("a field that must now be given", raw("missing"), raw("missing")), info.loc))
                else:
                    out.append(Result(fs, label, "undecided", "field without a reference", info.loc))
            except OUTSIDE as e:
                out.append(Result(fs, label, "undecided", str(e), loc))
        # whole-model validation
        label = anchor + ".(validation)"
        ms = Spec(props, label, None)
        try:
            cf, vs = model_function(ctx, c)
            sf = ctx.validations.get(anchor)
            if sf is None:
                sf = synth(ctx, c.module, "validate_model", ["return self"], "self")
            ms.func = sf
            if vs:
                res = ctx.decide(ms, label, cf, c, ctx.keepset())
                res.loc = vs[0].loc()
            elif anchor in ctx.validations:
                res = Result(ms, label, "violated", ("validation removed", raw("missing"), raw("missing")), loc)
            else:
                res = Result(ms, label, "proved", "", loc)
            out.append(res)
        except OUTSIDE as e:
            out.append(Result(ms, label, "undecided", str(e), loc))
    return out


def check_field(ctx, s, label, c, f, sc, sf, Spec, Result):
    ev = ctx.evaluator(ctx.keepset())
    rc, rs = Reader(ctx, ev, "code"), Reader(ctx, ev, "spec")
    ic, isp = rc.field(f), rs.field(sf)
    ic.name = isp.name = f.name

    def bad(why, a=None, b=None):
        a = a if a is not None else raw("missing")
        return Result(s, label, "violated", (why, a, b if b is not None else raw("missing")), ic.loc)

    same = same_type(ctx.p, ic.type, isp.type)
    if same is False:
        return bad(f"type {show_type(ic.type)} instead of {show_type(isp.type)}")
    if same is None:
        return Result(s, label, "undecided", f"type {show_type(ic.type)}", ic.loc)
    if ic.required and not isp.required:
        return bad("the field must now be given")
    if isp.required and not ic.required:
        return bad("the field has acquired a default")
    if not isp.required:
        vc, vs = rc.default(ic), rs.default(isp)
        d = Differ(ev)
        ms = d.eqv(vc, vs)
        if ms:
            hard, soft = ctx.classify([("default", x) for x in ms], ev)
            if hard:
                return bad("default value", hard[0][1], hard[0][2])
            return Result(s, label, "undecided", "default: " + soft[0][3], ic.loc)
    fc = field_function(ctx, rc, c, ic, f.module)
    fs = field_function(ctx, rs, sc, isp, sf.module)
    ps = Spec(s.props, label, fs)
    cls = {"int": "int", "float": "float", "str": "str", "list": "list"}.get(isp.type[0])
    if cls:
        fs.node.args.args[0].annotation = ast.Name(cls, ast.Load())
    res = ctx.decide(ps, label, fc, None, ctx.keepset())
    res.loc = ic.loc
    return res


def check_enum(ctx, s, anchor, c, sc, loc, Result):
    out = []
    ev = ctx.evaluator(ctx.keepset())
    if not ctx.p.is_enum(c):
        return [Result(s, anchor, "undecided", "not an enumeration", loc)]
    for n, e in sc.consts.items():
        label = f"{anchor}.{n}"
        x = None
        for k in ctx.p.mro(c):
            if n in k.consts:
                x = (k.consts[n], k.module)
                break
        if x is None:
            out.append(Result(s, label, "violated", ("member removed", raw("missing"), raw("missing")), loc))
            continue
        ev.side = "code"
        a = ev.eval(x[0], Env(x[1]))
        ev.side = "spec"
        b = ev.eval(e, Env(sc.module))
        ms = Differ(ev).eqv(a, b)
        r = Result(s, label, "proved", "", f"{x[1].relpath}:{x[0].lineno}")
        if ms:
            hard, soft = ctx.classify([("member value", y) for y in ms], ev)
            r.status = "violated" if hard else "undecided"
            r.detail = hard[0][:3] if hard else soft[0][3]
        out.append(r)
    return out


def show_type(t):
    if t[0] in ("class", "ext"):
        return t[1].split(".")[-1]
    if t[0] == "literal":
        return "Literal[" + ", ".join(t[1:]) + "]"
    if t[0] == "con":
        return show_type(t[1]) + " (limited)"
    if len(t) == 1:
        return t[0]
    return t[0] + "[" + ", ".join(show_type(x) for x in t[1:] if isinstance(x, tuple)) + "]"
