"""
Meaning of the external vocabulary (builtins, numpy, datetime, pandas, shapely, skyfield).

Everything here is an equation between expressions: keyword and positional spellings of
one call coincide, defaults disappear, aliases collapse, and elementary algebra
(degrees/radians, modulo/floor, trigonometric shifts, time units) is normalised.
Functions without an equation stay uninterpreted calls.
"""
import builtins

from . import nodes as V
from .nodes import (
    N, NIL, NONE, TRUE, FALSE, PI, raw, const, num, add, sub, mul, div, power, neg, ite,
    and_, or_, not_, eq, lt0, truth, seq, cat, cm, iterate, length, index, attr, dict_,
    update, call, abstract, instantiate, substitute, fresh, numval, concat, any_, all_,
    INTSYMS, bv, hook, isbool,
)
from fractions import Fraction as Fr

CURRENT = [None]
TRYSTACK = []
BUILTINS = set(dir(builtins))
SEC = raw("sym", "#second")
NAN = raw("const", "float", "nan")
NAT = raw("const", "NaT", "NaT")

# ------------------------------------------------------------------ names

ALIAS = {
    "numpy.deg2rad": "numpy.radians", "numpy.rad2deg": "numpy.degrees",
    "numpy.absolute": "abs", "numpy.abs": "abs", "builtins.abs": "abs", "numpy.fabs": "abs",
    "math.fabs": "abs", "numpy.remainder": "numpy.mod",
    "math.asin": "numpy.arcsin", "math.acos": "numpy.arccos", "math.atan": "numpy.arctan",
    "math.atan2": "numpy.arctan2", "numpy.asin": "numpy.arcsin", "numpy.acos": "numpy.arccos",
    "numpy.atan": "numpy.arctan", "numpy.atan2": "numpy.arctan2", "numpy.pow": "numpy.power",
    "math.pow": "numpy.power", "builtins.pow": "numpy.power",
    "numpy.around": "numpy.round", "numpy.round_": "numpy.round", "builtins.round": "numpy.round",
    "numpy.true_divide": "numpy.divide", "numpy.floor_divide": "numpy.floordiv",
    "numpy.asarray": "numpy.array", "numpy.asanyarray": "numpy.array",
    "builtins.any": "numpy.any", "builtins.all": "numpy.all",
    "builtins.sum": "numpy.sum", "math.fsum": "numpy.sum",
    "numpy.concat": "numpy.concatenate", "numpy.dot": "numpy.matmul",
    "numpy.bitwise_and": "numpy.logical_and", "numpy.bitwise_or": "numpy.logical_or",
    "numpy.invert": "numpy.logical_not", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "pandas.isnull": "pandas.isna", "pandas.notnull": "pandas.notna",
    "shapely.geometry.point.Point": "shapely.geometry.Point",
    "datetime.UTC": "datetime.timezone.utc",
    "numpy.flatnonzero": "numpy.flatnonzero",
}
SHAPELY = {
    "Point", "Polygon", "MultiPolygon", "LineString", "MultiPoint", "MultiLineString",
    "GeometryCollection",
}
MATH2NP = {
    "sin", "cos", "tan", "sqrt", "radians", "degrees", "ceil", "floor", "exp", "log", "log10",
    "hypot", "pi", "nan", "inf", "e", "cbrt", "isnan", "trunc", "isfinite", "isclose", "copysign",
}


def canon(d):
    if d.startswith("math."):
        r = d[5:]
        if r in MATH2NP:
            d = "numpy." + r
    if d.startswith("shapely.") and d.split(".")[-1] in SHAPELY:
        d = "shapely.geometry." + d.split(".")[-1]
    if d in ("geopandas.geodataframe.GeoDataFrame",):
        d = "geopandas.GeoDataFrame"
    if d.startswith("numpy.core.") or d.startswith("numpy.lib."):
        d = "numpy." + d.split(".")[-1]
    return ALIAS.get(d, d)


CONSTS = {
    "numpy.pi": PI, "numpy.nan": NAN, "numpy.NaN": NAN, "numpy.inf": raw("const", "float", "inf"),
    "pandas.NaT": NAT, "builtins.True": TRUE, "builtins.False": FALSE, "builtins.None": NONE,
    "numpy.newaxis": NONE,
}


def value(d):
    c = canon(d)
    if c in CONSTS:
        return CONSTS[c]
    return raw("extfn", c)


# ------------------------------------------------------------------ signatures

SIG = {
    "numpy.linalg.norm": ("x", "ord", "axis", "keepdims"),
    "numpy.linspace": ("start", "stop", "num", "endpoint", "retstep", "dtype", "axis"),
    "numpy.arange": ("start", "stop", "step", "dtype"),
    "numpy.searchsorted": ("a", "v", "side", "sorter"),
    "numpy.cross": ("a", "b", "axisa", "axisb", "axisc", "axis"),
    "numpy.sum": ("a", "axis", "dtype"),
    "numpy.any": ("a", "axis"), "numpy.all": ("a", "axis"),
    "numpy.max": ("a", "axis"), "numpy.min": ("a", "axis"), "numpy.mean": ("a", "axis"),
    "numpy.diff": ("a", "n", "axis"), "numpy.cumsum": ("a", "axis", "dtype"),
    "numpy.insert": ("arr", "obj", "values", "axis"),
    "numpy.interp": ("x", "xp", "fp", "left", "right", "period"),
    "numpy.average": ("a", "axis", "weights"),
    "numpy.concatenate": ("arrays", "axis"), "numpy.size": ("a", "axis"),
    "numpy.ones": ("shape", "dtype"), "numpy.zeros": ("shape", "dtype"),
    "numpy.full": ("shape", "fill_value", "dtype"), "numpy.array": ("object", "dtype"),
    "numpy.round": ("a", "decimals"), "numpy.eye": ("N", "M"),
    "numpy.argsort": ("a", "axis", "kind"), "numpy.sort": ("a", "axis", "kind"),
    "numpy.argmin": ("a", "axis"), "numpy.argmax": ("a", "axis"),
    "numpy.where": ("condition", "x", "y"), "numpy.clip": ("a", "a_min", "a_max"),
    "numpy.nonzero": ("a",), "numpy.shape": ("a",), "numpy.trace": ("a",),
    "numpy.zeros_like": ("a", "dtype"), "numpy.ones_like": ("a", "dtype"),
    "numpy.full_like": ("a", "fill_value"), "numpy.column_stack": ("tup",),
    "numpy.vstack": ("tup",), "numpy.hstack": ("tup",),
    "pandas.Interval": ("left", "right", "closed"),
    "pandas.Series": ("data", "index", "dtype", "name", "copy"),
    "pandas.DataFrame": ("data", "index", "columns", "dtype", "copy"),
    "geopandas.GeoDataFrame": ("data", "*", "geometry", "crs"),
    "geopandas.GeoSeries": ("data", "index", "crs"),
    "geopandas.clip": ("gdf", "mask", "keep_geom_type", "sort"),
    "geopandas.points_from_xy": ("x", "y", "z", "crs"),
    "pandas.concat": ("objs", "axis", "join", "ignore_index", "keys"),
    "pandas.merge_asof": ("left", "right", "on", "left_on", "right_on", "left_index",
                          "right_index", "by", "left_by", "right_by", "suffixes", "tolerance",
                          "allow_exact_matches", "direction"),
    "shapely.geometry.Polygon": ("shell", "holes"),
    "shapely.geometry.LineString": ("coordinates",),
    "shapely.geometry.MultiPoint": ("points",),
    "shapely.geometry.MultiPolygon": ("polygons",),
    "shapely.geometry.MultiLineString": ("lines",),
    "shapely.geometry.GeometryCollection": ("geoms",),
    "shapely.ops.transform": ("func", "geom"),
    "shapely.ops.split": ("geom", "splitter"),
    "shapely.ops.clip_by_rect": ("geom", "xmin", "ymin", "xmax", "ymax"),
    "skyfield.api.wgs84.latlon": ("latitude_degrees", "longitude_degrees", "elevation_m"),
    "skyfield.api.wgs84.geographic_position_of": ("position",),
    "skyfield.api.wgs84.subpoint_of": ("position",),
    "skyfield.positionlib.Geocentric": ("position_au", "velocity_au_per_d", "t", "center", "target"),
    "skyfield.api.EarthSatellite": ("line1", "line2", "name", "ts"),
    "skyfield.functions.angle_between": ("u", "v"),
    "skyfield.api.Distance": ("au", "km", "m"),
    "pyproj.Transformer.from_crs": ("crs_from", "crs_to", "always_xy"),
    "datetime.datetime": ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"),
    "datetime.datetime.now": ("tz",),
    "datetime.timedelta": ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"),
    "builtins.enumerate": ("iterable", "start"),
    "builtins.sorted": ("iterable", "key", "reverse"),
    "builtins.open": ("file", "mode", "buffering", "encoding"),
    "re.match": ("pattern", "string", "flags"),
    "re.fullmatch": ("pattern", "string", "flags"),
    "spiceypy.spiceypy.recgeo": ("rectan", "re", "f"),
    "spiceypy.spiceypy.surfpt": ("positn", "u", "a", "b", "c"),
    "spiceypy.spiceypy.edlimb": ("a", "b", "c", "viewpt"),
    "spiceypy.spiceypy.inelpl": ("ellips", "plane"),
    "spiceypy.spiceypy.nvp2pl": ("normal", "point"),
    "sgp4.exporter.export_tle": ("satrec",),
    "sgp4.conveniences.sat_epoch_datetime": ("sat",),
    "sgp4.api.Satrec.twoline2rv": ("s", "t"),
    "pyproj.aoi.AreaOfInterest": ("west_lon_degree", "south_lat_degree", "east_lon_degree", "north_lat_degree"),
    "pyproj.database.query_utm_crs_info": ("datum_name", "area_of_interest", "contains"),
    "skyfield.api.Time": ("ts", "tt"),
}
S = const
DEFAULTS = {
    "numpy.linalg.norm": {"ord": NONE, "axis": NONE, "keepdims": FALSE},
    "numpy.linspace": {"num": num(50), "endpoint": TRUE, "retstep": FALSE, "dtype": NONE, "axis": num(0)},
    "numpy.searchsorted": {"side": S("left"), "sorter": NONE},
    "numpy.sum": {"axis": NONE, "dtype": NONE}, "numpy.any": {"axis": NONE}, "numpy.all": {"axis": NONE},
    "numpy.max": {"axis": NONE}, "numpy.min": {"axis": NONE}, "numpy.mean": {"axis": NONE},
    "numpy.diff": {"n": num(1), "axis": num(-1)}, "numpy.cumsum": {"axis": NONE, "dtype": NONE},
    "numpy.insert": {"axis": NONE}, "numpy.average": {"axis": NONE, "weights": NONE},
    "numpy.concatenate": {"axis": num(0)}, "numpy.size": {"axis": NONE},
    "numpy.array": {"dtype": NONE}, "numpy.round": {"decimals": num(0)},
    "numpy.eye": {"M": NONE}, "numpy.argsort": {"axis": num(-1), "kind": NONE},
    "numpy.sort": {"axis": num(-1), "kind": NONE}, "numpy.argmin": {"axis": NONE}, "numpy.argmax": {"axis": NONE},
    "numpy.ones": {"dtype": NONE}, "numpy.zeros": {"dtype": NONE},
    "numpy.interp": {"left": NONE, "right": NONE, "period": NONE},
    "pandas.Interval": {"closed": S("right")},
    "pandas.Series": {"data": NIL, "index": NONE, "name": NONE},
    "pandas.DataFrame": {"index": NONE, "columns": NONE},
    "geopandas.GeoDataFrame": {"geometry": NONE, "crs": NONE, "data": NONE},
    "geopandas.GeoSeries": {"index": NONE, "crs": NONE},
    "geopandas.clip": {"keep_geom_type": FALSE, "sort": FALSE},
    "geopandas.points_from_xy": {"z": NONE, "crs": NONE},
    "pandas.concat": {"axis": num(0), "join": S("outer"), "ignore_index": FALSE, "keys": NONE},
    "pandas.merge_asof": {
        "on": NONE, "left_on": NONE, "right_on": NONE, "left_index": FALSE, "right_index": FALSE,
        "by": NONE, "left_by": NONE, "right_by": NONE, "suffixes": seq(S("_x"), S("_y")),
        "tolerance": NONE, "allow_exact_matches": TRUE, "direction": S("backward")},
    "shapely.geometry.Polygon": {"holes": NONE},
    "skyfield.api.wgs84.latlon": {"elevation_m": num(0)},
    "skyfield.positionlib.Geocentric": {"velocity_au_per_d": NONE, "t": NONE, "center": NONE, "target": NONE},
    "skyfield.api.EarthSatellite": {"name": NONE, "ts": NONE},
    "skyfield.api.Distance": {"au": NONE, "km": NONE, "m": NONE},
    "pyproj.Transformer.from_crs": {"always_xy": FALSE},
    "datetime.datetime": {"hour": num(0), "minute": num(0), "second": num(0), "microsecond": num(0), "tzinfo": NONE},
    "datetime.datetime.now": {"tz": NONE},
    "builtins.enumerate": {"start": num(0)}, "builtins.sorted": {"key": NONE, "reverse": FALSE},
    "builtins.open": {"mode": S("r"), "buffering": num(-1)},
    "re.match": {"flags": num(0)}, "re.fullmatch": {"flags": num(0)},
    "pyproj.database.query_utm_crs_info": {"datum_name": NONE, "area_of_interest": NONE, "contains": FALSE},
}

MSIG = {
    "sort_values": ("by", "axis", "ascending", "inplace", "kind", "na_position", "ignore_index"),
    "reset_index": ("level", "drop", "inplace"),
    "dissolve": ("by", "aggfunc", "as_index", "level", "sort"),
    "groupby": ("by", "axis", "level", "as_index", "sort"),
    "sjoin": ("df", "how", "predicate", "lsuffix", "rsuffix"),
    "shift": ("periods",), "apply": ("func", "axis"), "astimezone": ("tz",),
    "rename": ("mapper", "index", "columns", "axis", "copy", "inplace"),
    "to_crs": ("crs", "epsg", "inplace"), "set_crs": ("crs", "epsg", "inplace"),
    "find_events": ("topos", "t0", "t1", "altitude_degrees"),
    "from_datetime": ("datetime",), "from_datetimes": ("datetime_list",),
    "buffer": ("distance",), "model_validate": ("obj",), "zfill": ("width",), "rjust": ("width", "fillchar"), "ljust": ("width", "fillchar"),
    "cumsum": (), "cummax": (), "isna": (), "any": ("axis",), "all": ("axis",),
    "mean": ("axis",), "max": ("axis",), "min": ("axis",), "sum": ("axis",),
    "set_geometry": ("col",), "drop": ("labels", "axis", "index", "columns", "inplace"),
    "get": ("key", "default"), "copy": ("deep",), "explode": ("column", "ignore_index"),
    "contains": ("other",), "intersects": ("other",), "crosses": ("other",), "is_sunlit": ("ephemeris",),
    "at": ("t",), "observe": ("target",), "frame_xyz_and_velocity": ("frame",), "altaz": (),
}
MDEF = {
    "sort_values": {"axis": num(0), "ascending": TRUE, "inplace": FALSE, "na_position": S("last"), "ignore_index": FALSE,
                    "kind": S("quicksort")},
    "reset_index": {"level": NONE, "drop": FALSE, "inplace": FALSE},
    "dissolve": {"by": NONE, "aggfunc": S("first"), "as_index": TRUE, "level": NONE, "sort": TRUE},
    "groupby": {"axis": num(0), "level": NONE, "as_index": TRUE, "sort": TRUE},
    "sjoin": {"how": S("inner"), "predicate": S("intersects"), "lsuffix": S("left"), "rsuffix": S("right")},
    "shift": {"periods": num(1)}, "apply": {"axis": num(0)},
    "rename": {"mapper": NONE, "index": NONE, "columns": NONE, "inplace": FALSE, "copy": NONE, "axis": NONE},
    "to_crs": {"crs": NONE, "epsg": NONE, "inplace": FALSE}, "set_crs": {"crs": NONE, "epsg": NONE, "inplace": FALSE},
    "find_events": {"altitude_degrees": num(0)},
    "any": {"axis": num(0)}, "all": {"axis": num(0)},
    "drop": {"labels": NONE, "axis": num(0), "index": NONE, "columns": NONE, "inplace": FALSE},
    "get": {"default": NONE}, "copy": {"deep": TRUE}, "explode": {"column": NONE, "ignore_index": FALSE},
}


def bind_args(sig, dflt, args, kw):
    out = {}
    pos = [p for p in sig]
    if "*" in pos:
        pos = pos[: pos.index("*")]
    for i, a in enumerate(args):
        if i < len(pos):
            out[pos[i]] = a
        else:
            out[f"{i:02d}"] = a
    out.update(kw)
    for k, d in dflt.items():
        if k in out and out[k] is d:
            del out[k]
    return out


def strip(a):
    while a.op in ("arr", "lst") or (a.op == "atdef"):
        if a.op == "atdef":
            break
        a = a.a[0]
    return a


# ------------------------------------------------------------------ numeric hooks

def A(d, *names):
    return [d.get(n) for n in names]


def lead_neg(x):
    """True if the normalised leading coefficient is negative."""
    if x.op != "poly" or not x.a[0]:
        return False
    its = [c for m, c in x.a[0] if m != ()] or [x.a[0][0][1]]
    return its[0] < 0


def pi_part(x):
    """(k, rest) with x = k*pi/2 + rest, k integer, or (0, x)."""
    t = V.terms(x)
    m = ((PI, Fr(1)),)
    c = t.get(m)
    if c is None:
        return 0, x
    k = c * 2
    if k.denominator != 1:
        return 0, x
    return int(k), sub(x, mul(num(c), PI))


@hook("numpy.sin")
def _sin(d):
    x = d["0"]
    if numval(x) == 0:
        return num(0)
    k, r = pi_part(x)
    if k % 4:
        return [None, call("numpy.cos", (("0", r),)), neg(call("numpy.sin", (("0", r),))),
                neg(call("numpy.cos", (("0", r),)))][k % 4]
    if k:
        return call("numpy.sin", (("0", r),))
    if x.op == "call" and x.a[0] == "numpy.arcsin":
        return x.a[1][0][1]
    if x.op == "call" and x.a[0] == "numpy.arctan":
        y = x.a[1][0][1]
        return div(y, power(add(num(1), mul(y, y)), num(Fr(1, 2))))
    if lead_neg(x):
        return neg(call("numpy.sin", (("0", neg(x)),)))


@hook("numpy.cos")
def _cos(d):
    x = d["0"]
    if numval(x) == 0:
        return num(1)
    k, r = pi_part(x)
    if k % 4:
        return [None, neg(call("numpy.sin", (("0", r),))), neg(call("numpy.cos", (("0", r),))),
                call("numpy.sin", (("0", r),))][k % 4]
    if k:
        return call("numpy.cos", (("0", r),))
    if x.op == "call" and x.a[0] == "numpy.arcsin":
        y = x.a[1][0][1]
        return power(sub(num(1), mul(y, y)), num(Fr(1, 2)))
    if x.op == "call" and x.a[0] == "numpy.arctan":
        y = x.a[1][0][1]
        return power(add(num(1), mul(y, y)), num(Fr(-1, 2)))
    if lead_neg(x):
        return call("numpy.cos", (("0", neg(x)),))


@hook("numpy.tan")
def _tan(d):
    x = d["0"]
    return div(call("numpy.sin", (("0", x),)), call("numpy.cos", (("0", x),)))


@hook("numpy.arcsin")
def _asin(d):
    x = d["0"]
    if numval(x) == 0:
        return num(0)
    if lead_neg(x):
        return neg(call("numpy.arcsin", (("0", neg(x)),)))


@hook("numpy.arctan")
def _atan(d):
    x = d["0"]
    if numval(x) == 0:
        return num(0)
    if lead_neg(x):
        return neg(call("numpy.arctan", (("0", neg(x)),)))


@hook("numpy.arccos")
def _acos(d):
    return sub(mul(num(Fr(1, 2)), PI), call("numpy.arcsin", (("0", d["0"]),)))


@hook("abs")
def _abs(d):
    x = d["0"]
    v = numval(x)
    if v is not None:
        return num(abs(v))
    if x.op == "call" and x.a[0] == "abs":
        return x
    if lead_neg(x):
        return call("abs", (("0", neg(x)),))


def floor(x):
    return call("floor", (("0", x),))


@hook("floor")
def _floor(d):
    x = d["0"]
    v = numval(x)
    if v is not None:
        return num(v.numerator // v.denominator)
    t = V.terms(x)
    ints, rest = {}, {}
    for m, c in t.items():
        p = raw("poly", ((m, c),)) if True else None
        if m == ():
            k = c.numerator // c.denominator
            if k:
                ints[m] = Fr(k)
            if c - k:
                rest[m] = c - k
        elif c.denominator == 1 and all(e.denominator == 1 and e > 0 and V.isint(a) for a, e in m):
            ints[m] = c
        else:
            rest[m] = c
    if ints:
        r = V._poly(rest)
        return add(V._poly(ints), floor(r) if rest else num(0))
    if not rest:
        return num(0)


_isint0 = V.isint


def _isint(n):
    if n.op == "call" and n.a[0] in ("floor", "numpy.round", "len", "vlen", "int", "numpy.size"):
        if n.a[0] == "numpy.round" and any(k == "decimals" for k, _ in n.a[1]):
            return False
        return True
    if n.op == "index" and n.a[0].op == "call" and n.a[0].a[0] == "numpy.shape":
        return True
    return _isint0(n)


V.isint = _isint


def mod(a, b):
    return sub(a, mul(b, floor(div(a, b))))


@hook("int")
def _int(d):
    x = d["0"]
    v = numval(x)
    if v is not None:
        return num(int(v))
    if V.isint(x):
        return x
    if x.op == "const" and x.a[0] == "bool":
        return num(int(x.a[1]))
    if x.op == "call" and x.a[0] == "int":
        return x


@hook("numpy.round")
def _round(d):
    if set(d) == {"a"} and V.isint(d["a"]):
        return d["a"]


def minmax(name, args):
    out = []
    for a in args:
        if a.op == "call" and a.a[0] == name:
            out.extend(v for _, v in a.a[1])
        else:
            out.append(a)
    u = []
    for a in out:
        if a not in u:
            u.append(a)
    vals = [a for a in u if numval(a) is not None]
    if len(vals) > 1:
        pick = (min if name == "min" else max)(vals, key=numval)
        u = [a for a in u if a not in vals] + [pick]
    if len(u) == 1:
        return u[0]
    u.sort(key=lambda a: a.id)
    return raw("call", name, tuple((f"{i:02d}", a) for i, a in enumerate(u)))


@hook("min")
def _min(d):
    return minmax("min", list(d.values()))


@hook("max")
def _max(d):
    return minmax("max", list(d.values()))


@hook("sum")
def _sum(d):
    x = d["0"]
    if x.op in ("arr", "lst"):
        x = x.a[0]
        return call("sum", (("0", x),))
    if x.op == "seq":
        return add(num(0), *x.a[0])
    if x.op == "cat":
        return add(*[call("sum", (("0", y),)) for y in x.a[0]])
    if x.op == "ite":
        return ite(x.a[0], call("sum", (("0", x.a[1]),)), call("sum", (("0", x.a[2]),)))
    if V.is_map(x):
        n, b = x.a
        e = b.a[1].a[0][0]
        if e.op == "poly":
            if not e.a[0]:
                return num(0)
            parts = []
            triv = True
            for m, c in e.a[0]:
                inner = tuple(f for f in m if 0 in V.free_bvs(f[0]))
                outer = tuple(f for f in m if 0 not in V.free_bvs(f[0]))
                if outer or c != 1 or len(e.a[0]) > 1 or not inner:
                    triv = False
                o = V.shift_down(V._poly({outer: c})) if outer else num(c)
                if inner:
                    s = raw("call", "sum", (("0", cm(n, raw("bind", 1, seq(V._poly({inner: Fr(1)}))))),))
                else:
                    s = n
                parts.append(mul(o, s))
            if not triv:
                return add(*parts)
        elif 0 not in V.free_bvs(e):
            return mul(n, V.shift_down(e))
    return None


@hook("numpy.einsum")
def _einsum(d):
    s = d.get("0")
    if s is None or s.op != "const":
        return None
    ops = [d[k] for k in sorted(d) if k not in ("0",)]
    txt = s.a[1].replace(" ", "")
    if "->" not in txt:
        return None
    lhs, out = txt.split("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        return None
    if len(ops) == 2 and out == "ij" and sorted(ins, key=len) == ["j", "ij"]:
        return mul(*ops)
    if len(ops) == 2 and set(ins) == {"ij"} and out in ("j", "i"):
        return call("numpy.sum", (("a", mul(*ops)), ("axis", num(0 if out == "j" else 1))))
    pairs = sorted(zip(ins, ops), key=lambda p: (p[1].id, p[0]))
    # identical subscripts commute; others keep a canonical operand order
    m = {}
    for t in [p[0] for p in pairs] + [out]:
        for c in t:
            m.setdefault(c, "ijklmnop"[len(m)])
    txt = ",".join("".join(m[c] for c in p[0]) for p in pairs) + "->" + "".join(m[c] for c in out)
    args = (("0", const(txt)),) + tuple((str(i + 1), p[1]) for i, p in enumerate(pairs))
    new = raw("call", "numpy.einsum", tuple(sorted(args)))
    return new


@hook("numpy.concatenate")
def _concat1(d):
    x = d.get("arrays")
    if x is not None and set(d) == {"arrays"} and x.op == "seq" and len(x.a[0]) == 2:
        h, t = x.a[0]
        h = h.a[0] if h.op in ("arr", "lst") else h
        if h.op == "seq" and len(h.a[0]) == 1 and numval(h.a[0][0]) is not None:
            return call("numpy.insert", (("arr", t), ("obj", num(0)), ("values", h.a[0][0])))


@hook("isinstance")
def _hisinstance(d):
    if d.get("0") is NONE and d.get("1") is not None and d["1"].op in ("extfn", "cls"):
        return FALSE


@hook("numpy.cross")
def _cross(d):
    if set(d) >= {"a", "b"} and d["a"].id > d["b"].id and d.get("axisa") is d.get("axisb"):
        return neg(call("numpy.cross", tuple(sorted({**d, "a": d["b"], "b": d["a"]}.items()))))


# ------------------------------------------------------------------ helpers for the evaluator

def mkslice(lo, hi, st):
    if st is not NONE and numval(st) == 1:
        st = NONE
    if lo is not NONE and numval(lo) == 0 and (st is NONE or (numval(st) or 0) > 0):
        lo = NONE
    return raw("slice", lo, hi, st)


def width(x):
    """Number of components of a vector that always has the same number."""
    x = x.a[0] if x.op in ("arr", "lst") else x
    if x.op == "attr" and x.a[1] == "bounds":
        return 4
    if x.op == "index" and x.a[0].op == "attr" and x.a[0].a[1] == "T" and x.a[1].op != "slice":
        b = x.a[0].a[0]
        if b.op == "attr" and b.a[1] in ("m", "km", "au", "m_per_s", "km_per_s", "au_per_d"):
            return 3
    return None


def listlike(ev, n):
    if n.op in ("seq", "cm", "cat", "lst"):
        return True
    if n.op == "ite":
        return listlike(ev, n.a[1]) and listlike(ev, n.a[2])
    if n.op == "proj":
        return False
    t = ev.typeof(n)
    return bool(t and t[0] == "list")


def tolist(ev, v):
    if v.op == "dict":
        return seq(*[k for k, _ in v.a[0]])
    if v.op == "const" and v.a[0] == "str":
        return seq(*[const(c) for c in v.a[1]])
    if v.op == "call" and v.a[0] == ".items" and len(v.a[1]) == 1 and v.a[1][0][1].op == "dict":
        return seq(*[seq(k, x) for k, x in v.a[1][0][1].a[0]])
    return v


def unpackable(ev, v):
    return v


def untruth(ev, v):
    if v.op == "lst":
        return not_(V.eq0(length(v)))
    if v.op == "call" and v.a[0] in ("re.match", "re.fullmatch", "re.search"):
        return not_(V.eq(v, NONE))
    if not isbool(v) and v.op in ("sym", "attr", "index", "call"):
        t = ev.typeof(v)
        if t and t[0] == "list":
            return not_(V.eq0(length(v)))
        if t and all(plain_object(ev, u) for u in (t[1] if t[0] == "union" else [t])):
            return not_(V.eq(v, NONE))
    return v


def plain_object(ev, t):
    """Instances are true whatever they hold."""
    if t == ("ext", "datetime.datetime"):
        return True
    c = ev.p.classes.get(t[1]) if t[0] == "class" else None
    return c is not None and ev.p.find_method(c, "__bool__") is None and ev.p.find_method(c, "__len__") is None


def get_item(ev, v, i):
    if v.op == "attr" and v.a[1] == "__dict__" and i.op == "const":
        return raw("index", v, i)
    if i.op in ("arr", "lst"):
        i = i.a[0]
    if i.op == "poly" and v.op not in ("seq", "dict", "update"):
        k = sub(i, length(v))
        kv = numval(k)
        if kv is not None and kv < 0 and kv.denominator == 1:
            i = k
    if ev.isframe(v) and i.op == "seq" and all(x.op == "const" for x in i.a[0]):
        # column selection: the order of columns is not a semantic difference
        i = seq(*sorted(i.a[0], key=lambda c: str(c.a)))
        return raw("index", v, i)
    if v.op == "call" and v.a[0] == ".items":
        pass
    return index(v, i)


def set_item(ev, base, i, v):
    if base.op in ("arr", "lst") and base.a[0].op in ("seq", "cm"):
        b = base.a[0]
        if b.op == "seq" and numval(i) is not None:
            return raw(base.op, update(b, i, v))
    return update(base, i, v)


def dict_merge(ev, d, x):
    if x.op == "dict":
        for k, v in x.a[0]:
            d = update(d, k, v)
        return d
    if x.op == "ite":
        return ite(x.a[0], dict_merge(ev, d, x.a[1]), dict_merge(ev, d, x.a[2]))
    if d.op == "ite":
        return ite(d.a[0], dict_merge(ev, d.a[1], x), dict_merge(ev, d.a[2], x))
    if x.op == "update":
        d = dict_merge(ev, d, x.a[0])
        for k, v in x.a[1]:
            d = update(d, k, v)
        return d
    if d.op == "dict" and not d.a[0]:
        return x
    return call("dictmerge", (("0", d), ("1", x)))


def dict_items(v):
    if v.op == "dict" and all(k.op == "const" and k.a[0] == "str" for k, _ in v.a[0]):
        return [(k.a[1], x) for k, x in v.a[0]]
    return None


def dict_from_pairs(ev, pairs):
    if pairs.op == "seq" and all(p.op == "seq" and len(p.a[0]) == 2 for p in pairs.a[0]):
        return dict_([(p.a[0][0], p.a[0][1]) for p in pairs.a[0]])
    return call("dictof", (("0", pairs),))


def tostr(x):
    if x.op == "const" and x.a[0] == "str":
        return x
    v = numval(x)
    if v is not None and v.denominator == 1:
        return const(str(int(v)))
    if x.op == "concat" or isstr(x):
        return x
    return call("str", (("0", x),))


def fmt(x, spec):
    if spec.op == "const":
        s = spec.a[1]
        if s in ("", "d", "s"):
            return tostr(x)
    if spec.op == "concat" or spec.op == "const":
        # f"{x:0{n}d}" is str(x).zfill(n)
        parts = list(spec.a[0]) if spec.op == "concat" else [spec]
        if parts and parts[0].op == "const" and parts[0].a[1].startswith("0"):
            head = parts[0].a[1][1:]
            rest = parts[1:]
            if rest and rest[-1].op == "const" and rest[-1].a[1] == "d":
                rest = rest[:-1]
            if not rest and head.rstrip("d").isdigit():
                return call(".zfill", (("self", tostr(x)), ("width", num(int(head.rstrip("d"))))))
            if head == "" and len(rest) == 1:
                w = rest[0]
                if w.op == "call" and w.a[0] == "str":
                    w = w.a[1][0][1]
                return call(".zfill", (("self", tostr(x)), ("width", w)))
    return call("format", (("0", x), ("1", spec)))


STRCALLS = {"str", "format", ".zfill", ".strip", ".join", ".replace", ".upper", ".lower", ".rjust",
            ".ljust", "repr", ".rstrip", ".lstrip"}


def isstr(n):
    if n.op == "const":
        return n.a[0] == "str"
    if n.op == "concat":
        return True
    if n.op == "call" and n.a[0] in STRCALLS:
        return True
    if n.op == "ite":
        return isstr(n.a[1]) and isstr(n.a[2])
    if n.op == "index" and n.a[1].op == "slice":
        return isstr(n.a[0]) or strsym(n.a[0])
    return strsym(n)


def strsym(n):
    ev = CURRENT[0]
    if ev is None or n.op not in ("sym", "attr", "index", "call"):
        return False
    return ev.typeof(n) == ("str",)


def strcat(a, b):
    for x, f in ((a, lambda y: strcat(y, b)), (b, lambda y: strcat(a, y))):
        if x.op == "ite":
            return ite(x.a[0], f(x.a[1]), f(x.a[2]))
    return concat(a, b)


def binop(ev, op, a, b):
    if a.op == "raise":
        return a
    if b.op == "raise":
        return b
    if op in ("Add", "Sub", "Mult", "Div"):
        a, b = asnum(ev, a), asnum(ev, b)
    if op == "Div" and (ispath(a) or ispath(b) or isstr(b)):
        return path_join(a, b)
    if op == "Add":
        if isstr(a) or isstr(b):
            return strcat(a, b)
        if a.op in ("seq", "cm", "cat", "lst") or b.op in ("seq", "cm", "cat", "lst") or listlike(ev, a) or listlike(ev, b):
            if a.op != "arr" and b.op != "arr":
                return cat(a, b)
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if x.op in ("seq", "cm", "cat", "lst") and y.op != "arr":
                return repeat(x, y)
            if isstr(x):
                return call("strrepeat", (("0", x), ("1", y)))
        return mul(a, b)
    if op == "Div":
        return div(a, b)
    if op == "FloorDiv":
        return floor(div(a, b))
    if op == "Mod":
        if isstr(a):
            return call("strmod", (("0", a), ("1", b)))
        return mod(a, b)
    if op == "Pow":
        return power(a, b)
    if op == "MatMult":
        return call("numpy.matmul", (("0", a), ("1", b)))
    if op == "BitAnd":
        return and_(truth(a), truth(b))
    if op == "BitOr":
        if a.op in ("dict", "update") or b.op in ("dict", "update"):
            return dict_merge(ev, a, b)
        return or_(truth(a), truth(b))
    return call("op:" + op, (("0", a), ("1", b)))


def asnum(ev, x):
    """True and False are 1 and 0 in arithmetic."""
    if x.op in ("lt0", "eq0", "eq", "not", "and", "or", "truth", "any", "in"):
        return ite(x, num(1), num(0))
    if x.op in ("attr", "sym"):
        t = ev.typeof(x)
        if t == ("bool",):
            return ite(truth(x), num(1), num(0))
    return x


def ispath(x):
    return x.op == "call" and x.a[0] in ("os.path.dirname", "os.path.join", "os.path.abspath", "pathlib.Path")


def path_join(a, *bs):
    parts = []
    for x in (a, *bs):
        if x.op == "call" and x.a[0] == "os.path.join" and not parts and all(k.isdigit() for k, _ in x.a[1]):
            parts += [v for _, v in sorted(x.a[1], key=lambda kv: int(kv[0]))]
        else:
            parts.append(x)
    return call("os.path.join", tuple((str(i), x) for i, x in enumerate(parts)))


def repeat(x, n):
    if x.op == "seq" and len(x.a[0]) == 1:
        i = fresh("i")
        return cm(n, abstract(x, [i]))
    i = fresh("i")
    return cm(n, abstract(x, [i]))


def compare(ev, op, l, r):
    if l.op == "raise":
        return l
    if r.op == "raise":
        return r
    if op == "Lt":
        return lt0(sub(l, r))
    if op == "Gt":
        return lt0(sub(r, l))
    if op == "LtE":
        return not_(lt0(sub(r, l)))
    if op == "GtE":
        return not_(lt0(sub(l, r)))
    if op in ("Eq", "Is"):
        return eq_(ev, l, r)
    if op in ("NotEq", "IsNot"):
        return not_(eq_(ev, l, r))
    if op in ("In", "NotIn"):
        c = contains_(ev, l, r)
        return c if op == "In" else not_(c)
    return call("cmp:" + op, (("0", l), ("1", r)))


def eq_(ev, l, r):
    l, r = (l.a[0] if l.op == "lst" else l), (r.a[0] if r.op == "lst" else r)
    if l.op == "enum" and r.op == "const":
        l = ev.enum_value(l)
    if r.op == "enum" and l.op == "const":
        r = ev.enum_value(r)
    if l.op == "enum" and r.op == "enum":
        return TRUE if l is r else FALSE
    for a, b in ((l, r), (r, l)):
        # x == [] on a list is emptiness; type(x) == C keeps its own form
        if a is NIL and b is not NIL and listlike(ev, b):
            return V.eq0(length(b))
        if a is NONE and ev.never_none(b):
            return FALSE
        if a.op == "ite" and b.op == "enum":
            return ite(a.a[0], eq_(ev, a.a[1], b), eq_(ev, a.a[2], b))
    return eq(l, r)


def contains_(ev, l, r):
    if r.op in ("arr", "lst"):
        r = r.a[0]
    if r.op == "seq":
        return or_(*[eq_(ev, l, x) for x in r.a[0]])
    if r.op == "dict":
        return or_(*[eq_(ev, l, k) for k, _ in r.a[0]])
    if r.op == "call" and r.a[0] == "set":
        return contains_(ev, l, r.a[1][0][1])
    if r.op in ("cm", "cat"):
        return any_(iterate(r, lambda x: seq(eq_(ev, l, x))))
    if r.op == "const" and l.op == "const" and r.a[0] == "str" == l.a[0]:
        return TRUE if l.a[1] in r.a[1] else FALSE
    if r.op == "range" and numval(r.a[2]) == 1:
        return and_(not_(lt0(sub(l, r.a[0]))), lt0(sub(l, r.a[1])))
    return raw("in", l, r)


def isinstance_(ev, v, c):
    if c.op in ("seq",):
        return or_(*[isinstance_(ev, v, x) for x in c.a[0]])
    if v.op == "ite":
        return ite(v.a[0], isinstance_(ev, v.a[1], c), isinstance_(ev, v.a[2], c))
    if c.op == "extfn":
        n = c.a[0]
        if n in ("builtins.list", "builtins.tuple") and v.op in ("seq", "cm", "cat", "lst"):
            return TRUE
        if v is NONE:
            return FALSE
        if v.op == "call" and v.a[0] == n:
            return TRUE
        if v.op == "call" and v.a[0].startswith("shapely.geometry.") and n.startswith("shapely.geometry."):
            return TRUE if v.a[0] == n else FALSE
    if c.op == "cls":
        k = ev.p.classes.get(c.a[0])
        if v.op == "new" and k is not None:
            vc = ev.p.classes.get(v.a[0])
            if vc is not None:
                return TRUE if ev.p.is_sub(vc, k) else FALSE
        if v in ev.exact:
            t = ev.typeof(v)
            vc = ev.p.classes.get(t[1]) if t and t[0] == "class" else None
            if vc is not None and k is not None:
                return TRUE if ev.p.is_sub(vc, k) else FALSE
        t = ev.typeof(v)
        if t and t[0] == "class" and k is not None:
            vc = ev.p.classes.get(t[1])
            if vc is not None and ev.p.is_sub(vc, k):
                return TRUE
    return raw("call", "isinstance", (("0", v), ("1", c)))


def mklam(ev, syms, body):
    if body.op == "call" and len(syms) == 1:
        args = body.a[1]
        s = syms[0]
        hit = [k for k, v in args if s in v.syms]
        if len(hit) == 1 and dict(args)[hit[0]] is s:
            if body.a[0].startswith(".") and len(args) == 2 and hit[0] != "self":
                recv = dict(args)["self"]
                return attr(recv, body.a[0][1:])
            if not body.a[0].startswith(".") and len(args) == 1 and hit[0] in ("0", "a", "x"):
                return raw("extfn", body.a[0])
    if body.op == "attr" and len(syms) == 1 and body.a[0] is syms[0] and False:
        pass
    return raw("lam", abstract(body, syms))


FRAME_ATTRS = {
    "loc", "iloc", "at", "iat", "crs", "empty", "columns", "index", "shape", "T", "dtypes", "values",
    "bounds", "total_bounds", "size", "ndim", "axes", "attrs", "sindex", "is_valid", "area",
    "copy", "apply", "dissolve", "sort_values", "reset_index", "groupby", "sjoin", "explode",
}


def _a_empty(ev, v):
    return V.eq0(length(v))


def shape(ev, x):
    """numpy.shape(x); stores into an array keep its shape."""
    while True:
        if x.op == "setitem":
            x = x.a[0]
        elif x.op == "call" and x.a[0] in ("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", ".copy"):
            y = dict(x.a[1]).get("self" if x.a[0] == ".copy" else "a")
            if y is None:
                break
            x = y
        elif x.op == "proj" and x.a[0].op == "fold":
            n, inits, body = x.a[0].a
            j = x.a[1]
            ss = [fresh("s") for _ in range(len(inits) + 1)]
            nx = V.instantiate(body, ss).a[0][j]

            def kept(y):
                if y.op == "ite":
                    return kept(y.a[1]) and kept(y.a[2])
                while y.op == "setitem":
                    y = y.a[0]
                return y is ss[j + 1] or y.op == "raise" or y.op == "ite" and kept(y)
            if not kept(nx):
                break
            x = inits[j]
        else:
            break
    if x.op == "raise":
        return x
    if x.op == "ite":
        return ite(x.a[0], shape(ev, x.a[1]), shape(ev, x.a[2]))
    if ev.isframe(x):
        return seq(length(x), call("len", (("0", attr(x, "columns")),)))
    return call("numpy.shape", (("a", strip(x)),))


def _a_shape(ev, v):
    return shape(ev, v)


def _a_ndim(ev, v):
    return length(shape(ev, v))


ATTRS = {"empty": _a_empty, "shape": _a_shape, "ndim": _a_ndim}

FRAME_CALLS = {
    "geopandas.GeoDataFrame", "pandas.DataFrame", "pandas.concat", "pandas.merge_asof",
    "geopandas.clip", "pandas.merge", "geopandas.sjoin",
}
FRAME_METHODS = {
    ".dissolve", ".sort_values", ".reset_index", ".sjoin", ".rename", ".set_crs", ".to_crs",
    ".assign", ".drop", ".copy", ".explode", ".set_geometry", ".clip", ".merge", ".dropna", ".set_index",
}


def call_type(ev, n):
    name = n.a[0]
    if name in FRAME_CALLS:
        return ("frame",)
    if name in FRAME_METHODS:
        recv = dict(n.a[1]).get("self")
        if recv is not None and ev.isframe(recv):
            return ("frame",)
        if name in (".dissolve", ".sjoin") or name == ".sort_values" and "by" in dict(n.a[1]):
            return ("frame",)
        return None
    if name == "copy.deepcopy":
        return ev.typeof(n.a[1][0][1])
    if name == "str" or name in STRCALLS:
        return ("str",)
    return None


def note(node):
    if TRYSTACK:
        for t in TRYSTACK:
            t.append(node)
    return node


THROWS = {
    "NotFoundError": {"spiceypy.spiceypy.surfpt", "spiceypy.spiceypy.inelpl"},
    "LinAlgError": {"numpy.linalg.solve", "numpy.linalg.inv", "numpy.linalg.pinv"},
    "YAMLError": {"yaml.safe_load", "yaml.load"},
    "ValidationError": {".model_validate", ".model_validate_json"},
}


def throws(exc, calls):
    t = THROWS.get(exc)
    if t is None:
        if exc in ("ConfigError",):
            return []
        return None
    out = []
    for c in calls:
        if c.op == "call" and c.a[0] in t and c not in out:
            out.append(c)
    return out


HIER = {"KeyError": {"LookupError"}, "IndexError": {"LookupError"}}


def exc_matches(ev, exc, handler):
    return handler in ("*", "Exception", "BaseException", exc) or handler in HIER.get(exc, ())


def is_pure(name):
    return not (name.startswith("random.") or name.startswith("numpy.random") or name in (
        "os.remove", "os.unlink", "setattr", "builtins.setattr", "builtins.exec", "builtins.delattr"))


def domain(ev, xs):
    if xs.op in ("arr", "lst"):
        return domain(ev, xs.a[0])
    i = fresh("i")
    INTSYMS.add(i)
    if xs.op == "range":
        lo, hi, st = xs.a
        return V.range_count(lo, hi, st), i, add(lo, mul(i, st))
    if xs.op == "enumerate":
        base, start = xs.a
        return length(base), i, seq(add(i, start), index(base, i))
    if xs.op == "zip":
        ls = []
        for p in xs.a[0]:
            l = length(p)
            if l not in ls:
                ls.append(l)
        n = ls[0] if len(ls) == 1 else minmax("min", ls)
        return n, i, seq(*[index(p, i) for p in xs.a[0]])
    if V.is_map(xs):
        return xs.a[0], i, instantiate(xs.a[1], [i]).a[0][0]
    if xs.op in ("cm", "cat", "ite", "seq"):
        return None
    return length(xs), i, index(xs, i)


def scatter(ev, xs, e, init, sd):
    """Loop of element stores."""
    if len(sd) == 1:
        k, v = sd[0]
        if init.op == "dict" and not init.a[0]:
            return dict_from_pairs(ev, iterate(xs, lambda x: seq(seq(substitute(k, {e: x}), substitute(v, {e: x})))))
        base = init.a[0] if init.op in ("arr", "lst") else init
        n = None
        if base.op == "cm" and V.is_map(base):
            n = base.a[0]
        elif base.op == "call" and base.a[0] in ("numpy.zeros", "numpy.ones", "numpy.empty"):
            d = dict(base.a[1])
            n = d.get("shape")
        if n is not None:
            dom = domain(ev, xs)
            if dom is not None:
                cnt, idx, elem = dom
                kk = substitute(k, {e: elem})
                if kk is idx and cnt is n:
                    return raw("arr", cm(cnt, abstract(seq(substitute(v, {e: elem})), [idx])))
    return None


def sum_(ev, lst):
    return call("sum", (("0", lst),))


# ------------------------------------------------------------------ external calls

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def num1(fn):
    return lambda ev, a, k, env, e: fn(a[0])


MODELS["numpy.radians"] = num1(lambda x: mul(x, PI, num(Fr(1, 180))))
MODELS["numpy.degrees"] = num1(lambda x: mul(x, num(180), power(PI, num(-1))))
MODELS["numpy.sqrt"] = num1(lambda x: power(x, num(Fr(1, 2))))
MODELS["numpy.cbrt"] = num1(lambda x: power(x, num(Fr(1, 3))))
MODELS["numpy.square"] = num1(lambda x: power(x, num(2)))
MODELS["numpy.negative"] = num1(neg)
MODELS["numpy.reciprocal"] = num1(lambda x: power(x, num(-1)))
MODELS["numpy.floor"] = num1(floor)
MODELS["numpy.ceil"] = num1(lambda x: neg(floor(neg(x))))
MODELS["builtins.bool"] = lambda ev, a, k, env, e: truth(untruth(ev, a[0])) if a else FALSE
MODELS["numpy.bool_"] = MODELS["builtins.bool"]


def two(fn):
    return lambda ev, a, k, env, e: fn(a[0], a[1]) if len(a) == 2 and not k else None


MODELS["numpy.power"] = two(power)
MODELS["numpy.mod"] = two(mod)
MODELS["numpy.floordiv"] = two(lambda a, b: floor(div(a, b)))
MODELS["numpy.divide"] = two(div)
MODELS["numpy.multiply"] = two(mul)
MODELS["numpy.add"] = two(add)
MODELS["numpy.subtract"] = two(sub)
MODELS["numpy.hypot"] = two(lambda a, b: power(add(mul(a, a), mul(b, b)), num(Fr(1, 2))))
MODELS["numpy.logical_and"] = two(lambda a, b: and_(truth(a), truth(b)))
MODELS["numpy.logical_or"] = two(lambda a, b: or_(truth(a), truth(b)))
MODELS["numpy.logical_not"] = num1(lambda a: not_(truth(a)))
MODELS["numpy.equal"] = lambda ev, a, k, env, e: compare(ev, "Eq", a[0], a[1])
MODELS["numpy.not_equal"] = lambda ev, a, k, env, e: compare(ev, "NotEq", a[0], a[1])
MODELS["numpy.less"] = lambda ev, a, k, env, e: compare(ev, "Lt", a[0], a[1])
MODELS["numpy.less_equal"] = lambda ev, a, k, env, e: compare(ev, "LtE", a[0], a[1])
MODELS["numpy.greater"] = lambda ev, a, k, env, e: compare(ev, "Gt", a[0], a[1])
MODELS["numpy.greater_equal"] = lambda ev, a, k, env, e: compare(ev, "GtE", a[0], a[1])
MODELS["builtins.divmod"] = two(lambda a, b: seq(floor(div(a, b)), mod(a, b)))
MODELS["numpy.minimum"] = two(lambda a, b: minmax("min", [a, b]))
MODELS["numpy.maximum"] = two(lambda a, b: minmax("max", [a, b]))
MODELS["operator.mul"] = two(mul)
MODELS["operator.add"] = two(add)


@model("numpy.where")
def _where(ev, a, k, env, e):
    if len(a) == 3:
        return ite(truth(a[0]), a[1], a[2])
    if len(a) == 1 and not k:
        return call("numpy.nonzero", (("a", a[0]),))
    return None


@model("numpy.flatnonzero")
def _flatnonzero(ev, a, k, env, e):
    # the analysed code applies it to vectors only
    if len(a) == 1 and not k:
        return raw("index", call("numpy.nonzero", (("a", a[0]),)), num(0))
    return None


@model("builtins.min", "builtins.max", "numpy.min", "numpy.max")
def _bmin(ev, a, k, env, e):
    from . import ext
    nm = _bmin_name[0]
    short = nm.split(".")[-1]
    if k.get("axis") is not None:
        return None
    key = k.get("key")
    if len(a) >= 2 and not k and nm.startswith("builtins"):
        return minmax(short, list(a))
    xs = tolist(ev, a[0])
    if key is not None:
        dom = domain(ev, xs)
        if dom is None:
            return call(short + "by", (("0", xs), ("1", ev.funcval(key))))
        cnt, idx, elem = dom
        kv = ev.apply(key, [elem], {}, env, e)
        am = call("numpy.arg" + short, (("a", cm(cnt, abstract(seq(kv), [idx]))),))
        return substitute(elem, {idx: am})
    xs = strip(xs)
    if xs.op == "seq":
        return minmax(short, list(xs.a[0]))
    return call(short + "of", (("0", xs),))


_bmin_name = [""]


@model("builtins.len")
def _len(ev, a, k, env, e):
    return length(tolist(ev, a[0]))


@model("numpy.shape")
def _shape(ev, a, k, env, e):
    x = a[0] if a else k.get("a")
    return None if x is None else shape(ev, x)


@model("numpy.ndim")
def _ndim(ev, a, k, env, e):
    x = a[0] if a else k.get("a")
    return None if x is None else length(shape(ev, x))


@model("numpy.size")
def _size(ev, a, k, env, e):
    x = a[0] if a else k.get("a")
    ax = a[1] if len(a) > 1 else k.get("axis", NONE)
    if x is None or ax is NONE:
        return None
    return index(shape(ev, x), ax)


@model("numpy.any")
def _any(ev, a, k, env, e):
    k.pop("axis", None) if k.get("axis") is NONE else None
    if k or len(a) != 1:
        return None
    return any_(tolist(ev, a[0]))


@model("numpy.all")
def _all(ev, a, k, env, e):
    if k or len(a) != 1:
        return None
    return all_(tolist(ev, a[0]))


@model("numpy.sum")
def _nsum(ev, a, k, env, e):
    k = {x: y for x, y in k.items() if y is not NONE}
    if len(a) == 1 and not k:
        return sum_(ev, tolist(ev, a[0]))
    if len(a) == 2 and listlike(ev, a[1]):
        return cat(a[1], iterate(tolist(ev, a[0]), lambda x: x if x.op in ("seq", "cm", "cat", "ite") else cat(x)))
    if len(a) == 2 and not k and numval(a[1]) is not None and _nsum_name[0] == "builtins.sum":
        return add(a[1], sum_(ev, tolist(ev, a[0])))
    return None


_nsum_name = [""]


@model("numpy.array")
def _array(ev, a, k, env, e):
    if len(a) != 1 or k:
        return None
    x = a[0]
    if x.op == "arr":
        return x
    if x.op == "lst":
        x = x.a[0]
    if x.op == "ite":
        return ite(x.a[0], _array(ev, [x.a[1]], {}, env, e), _array(ev, [x.a[2]], {}, env, e))
    return raw("arr", x)


@model("builtins.list", "builtins.tuple")
def _list(ev, a, k, env, e):
    if not a:
        return NIL
    x = tolist(ev, a[0])
    if x.op == "arr":
        x = x.a[0]
    if x.op in ("range", "enumerate", "zip"):
        return iterate(x, lambda y: seq(y))
    return cat(x)


@model("builtins.iter")
def _iter(ev, a, k, env, e):
    return a[0] if len(a) == 1 else None


@model("builtins.next")
def _next(ev, a, k, env, e):
    xs = tolist(ev, a[0])
    if len(a) == 2:
        return ite(V.eq0(length(xs)), a[1], index(xs, num(0)))
    return index(xs, num(0))


@model("builtins.set", "builtins.frozenset")
def _set(ev, a, k, env, e):
    if not a:
        return call("set", (("0", NIL),))
    return call("set", (("0", strip(tolist(ev, a[0]))),))


@model("builtins.dict")
def _dict(ev, a, k, env, e):
    d = dict_([])
    if a:
        x = a[0]
        if x.op in ("dict", "update"):
            d = x
        elif x.op in ("seq", "cm", "cat"):
            d = dict_from_pairs(ev, x)
        elif x.op == "zip":
            d = dict_from_pairs(ev, iterate(x, lambda y: seq(y)))
        else:
            d = x
    for n, v in k.items():
        d = update(d, const(n), v)
    return d


@model("builtins.range")
def _range(ev, a, k, env, e):
    if len(a) == 1:
        return raw("range", num(0), a[0], num(1))
    if len(a) == 2:
        return raw("range", a[0], a[1], num(1))
    return raw("range", a[0], a[1], a[2])


@model("numpy.arange")
def _arange(ev, a, k, env, e):
    if k:
        return None
    r = _range(ev, a, k, env, e)
    if all(V.isint(x) for x in r.a):
        return raw("arr", r)
    return None


@model("builtins.enumerate")
def _enum(ev, a, k, env, e):
    st = k.get("start", a[1] if len(a) > 1 else num(0))
    xs = tolist(ev, a[0])
    if xs.op in ("arr", "lst"):
        xs = xs.a[0]
    if xs.op in ("range", "zip", "enumerate"):
        xs = iterate(xs, lambda y: seq(y))
    return raw("enumerate", xs, st)


@model("builtins.zip")
def _zip(ev, a, k, env, e):
    if any(x.op == "star" for x in a):
        return None
    xs = []
    for x in a:
        x = tolist(ev, x)
        if x.op in ("arr", "lst"):
            x = x.a[0]
        if x.op in ("range", "zip", "enumerate"):
            x = iterate(x, lambda y: seq(y))
        xs.append(x)
    return raw("zip", tuple(xs))


@model("itertools.pairwise")
def _pairwise(ev, a, k, env, e):
    x = tolist(ev, a[0])
    return _zip(ev, [index(x, mkslice(NONE, num(-1), NONE)), index(x, mkslice(num(1), NONE, NONE))], {}, env, e)


@model("builtins.map")
def _map(ev, a, k, env, e):
    if len(a) == 2:
        return iterate(tolist(ev, a[1]), lambda x: seq(ev.apply(a[0], [x], {}, env, e)))
    z = _zip(ev, a[1:], {}, env, e)
    return iterate(z, lambda x: seq(ev.apply(a[0], list(x.a[0]), {}, env, e)))


@model("builtins.filter")
def _filter(ev, a, k, env, e):
    return iterate(tolist(ev, a[1]), lambda x: V.lite(
        truth(ev.apply(a[0], [x], {}, env, e) if a[0] is not NONE else x), seq(x), NIL))


@model("itertools.chain.from_iterable")
def _chainf(ev, a, k, env, e):
    def f(x):
        x = tolist(ev, x)
        return x if x.op in ("seq", "cm", "cat", "ite") else cat(x)
    return iterate(tolist(ev, a[0]), f)


@model("itertools.chain")
def _chain(ev, a, k, env, e):
    if len(a) == 1 and a[0].op == "star":
        return _chainf(ev, [a[0].a[0]], {}, env, e)
    return cat(*[tolist(ev, x) for x in a])


@model("itertools.product")
def _product(ev, a, k, env, e):
    if k or not a:
        return None

    def go(i, acc):
        if i == len(a):
            return seq(seq(*acc))
        return iterate(tolist(ev, a[i]), lambda x: go(i + 1, acc + [x]))
    return go(0, [])


@model("functools.partial")
def _partial(ev, a, k, env, e):
    return raw("partial", a[0], tuple(a[1:]), tuple(sorted(k.items())))


@model("builtins.isinstance")
def _isinst(ev, a, k, env, e):
    return isinstance_(ev, a[0], a[1])


@model("builtins.int", "numpy.int64", "numpy.int32", "math.trunc")
def _pint(ev, a, k, env, e):
    if not a:
        return num(0)
    x = a[0]
    if k or len(a) > 1:
        return None
    if isstr(x):
        return call("int", (("0", x),)) if x.op != "const" else _constint(x)
    return call("int", (("0", x),))


def _constint(x):
    try:
        return num(int(x.a[1]))
    except ValueError:
        return raw("raise", "ValueError")


@model("builtins.float", "numpy.float64")
def _pfloat(ev, a, k, env, e):
    if not a:
        return num(0)
    x = a[0]
    if x.op == "const" and x.a[0] == "str":
        t = x.a[1].strip().lower()
        if t == "nan":
            return NAN
        try:
            return num(Fr(t))
        except (ValueError, ZeroDivisionError):
            return None
    if isstr(x) or (x.op == "index" and x.a[1].op == "slice"):
        return call("float", (("0", x),))
    t = ev.typeof(x)
    if x.op == "poly" or (t and t[0] in ("int", "float")) or x.op == "call" and x.a[0] in ("abs", "floor", "sum", "int"):
        return x
    if x.op == "call" and x.a[0].startswith("numpy."):
        return x
    return x


@model("builtins.str")
def _pstr(ev, a, k, env, e):
    return tostr(a[0]) if a else const("")


@model("builtins.reversed")
def _rev(ev, a, k, env, e):
    x = tolist(ev, a[0])
    if x.op == "seq":
        return seq(*reversed(x.a[0]))
    return call("reversed", (("0", strip(x)),))


@model("builtins.sorted")
def _sorted(ev, a, k, env, e):
    d = {"0": strip(tolist(ev, a[0]))}
    for n in ("key", "reverse"):
        if n in k and k[n] not in (NONE, FALSE):
            d[n] = ev.funcval(k[n])
    return call("sorted", tuple(d.items()))


@model("builtins.getattr")
def _getattr(ev, a, k, env, e):
    if len(a) == 2 and a[1].op == "const" and a[1].a[0] == "str":
        return ev.get_attr(a[0], a[1].a[1])
    if len(a) == 3 and not k and a[1].op == "const" and a[1].a[0] == "str" and not a[1].a[1].startswith("_"):
        has = hasmember(ev, a[0], a[1].a[1])
        if has is None:
            return None
        if has in (TRUE, FALSE):
            return ev.get_attr(a[0], a[1].a[1]) if has is TRUE else a[2]
        return ite(has, ev.get_attr(a[0], a[1].a[1]), a[2])
    return None


@model("builtins.hasattr")
def _hasattr(ev, a, k, env, e):
    if len(a) == 2 and a[1].op == "const" and a[1].a[0] == "str" and not a[1].a[1].startswith("_"):
        return hasmember(ev, a[0], a[1].a[1])


def hasmember(ev, o, name):
    """Whether an instance of the program's models has a field or method of that name."""
    t = ev.typeof(o)
    ts = t[1] if t and t[0] == "union" else [t]
    out = set()
    for t in ts:
        if not t or t[0] != "class" or t[1] not in ev.p.classes:
            return None
        c = ev.p.classes[t[1]]
        for x in [c] + ([] if o in ev.exact or o.op == "new" else ev.p.subclasses(c)):
            if ev.p.ext_bases(x) and not all("pydantic" in str(b) or str(b) in ("str", "Enum", "enum.Enum") for b in ev.p.ext_bases(x)):
                return None
            out.add(name in ev.p.all_fields(x) or ev.p.find_method(x, name) is not None)
    if len(out) == 1:
        return TRUE if out.pop() else FALSE
    return call("hasattr", (("0", strip(o)), ("1", const(name))))


@model("builtins.type")
def _type(ev, a, k, env, e):
    if len(a) != 1:
        return None
    v = a[0]
    if v.op == "new":
        return raw("cls", v.a[0])
    if v in ev.exact:
        t = ev.typeof(v)
        if t and t[0] == "class":
            return raw("cls", t[1])
    return call("type", (("0", v),))


@model("datetime.timedelta")
def _td(ev, a, k, env, e):
    names = SIG["datetime.timedelta"]
    d = dict(zip(names, a))
    d.update(k)
    unit = {"days": 86400, "seconds": 1, "microseconds": Fr(1, 10**6), "milliseconds": Fr(1, 1000),
            "minutes": 60, "hours": 3600, "weeks": 604800}
    return add(num(0), *[mul(v, num(unit[n]), SEC) for n, v in d.items()])


@model("pandas.Timedelta", "numpy.timedelta64")
def _ptd(ev, a, k, env, e):
    if not a and k and set(k) <= set(SIG["datetime.timedelta"]):
        return _td(ev, a, k, env, e)
    return None


@model("shapely.geometry.Point")
def _point(ev, a, k, env, e):
    if len(a) == 1 and a[0].op == "seq":
        a = list(a[0].a[0])
    if k:
        return None
    return call("shapely.geometry.Point", tuple((str(i), x) for i, x in enumerate(a)))


@model("geopandas.GeoDataFrame", "pandas.DataFrame")
def _gdf(ev, a, k, env, e):
    name = _gdf_name[0]
    d = bind_args(SIG[name], DEFAULTS[name], [strip(x) for x in a], {n: strip(x) for n, x in k.items()})
    data = d.get("data")
    geo = d.get("geometry", NONE)
    if data is not None and data.op == "dict" and V.is_map(geo) and const("geometry") not in [kk for kk, _ in data.a[0]]:
        data = dict_(list(data.a[0]) + [(const("geometry"), d.pop("geometry"))])
        d["data"] = data
    if data is not None and data.op == "dict" and data.a[0]:
        cols = [(kk, strip(v)) for kk, v in data.a[0]]
        ns = {V.length(v) for _, v in cols if V.is_map(v)}
        if len(ns) == 1 and all(V.is_map(v) for _, v in cols):
            n = next(iter(ns))
            i = fresh("i")
            INTSYMS.add(i)
            d["data"] = cm(n, abstract(seq(dict_([(kk, index(v, i)) for kk, v in cols])), [i]))
    return call(name, tuple(sorted(d.items())))


_gdf_name = [""]


@model("copy.copy")
def _ccopy(ev, a, k, env, e):
    t = ev.typeof(a[0])
    if a[0].op in ("seq", "dict", "cm", "cat", "update") or t and t[0] == "list":
        return a[0]
    return None


@model("builtins.super")
def _super(ev, a, k, env, e):
    return None


def call_ext(ev, name, args, kw, env=None, e=None):
    raw_name = name
    name = canon(name)
    if name.startswith("builtins.") and name[9:] in ("ValueError", "KeyError", "Exception", "TypeError", "RuntimeError", "IndexError", "NotImplementedError"):
        return raw("exc", name[9:])
    for x in list(args) + list(kw.values()):
        if x.op == "raise":
            return x
    args = list(args)
    kw = dict(kw)
    dflt = DEFAULTS.get(name, {})
    for k_ in list(kw):
        if k_ in dflt and kw[k_] is dflt[k_]:
            del kw[k_]
    m = MODELS.get(name)
    if m is not None:
        sig = SIG.get(name)
        a2, k2 = args, kw
        if sig and not args and sig[0] in kw and name not in ("datetime.timedelta", "geopandas.GeoDataFrame", "pandas.DataFrame"):
            a2 = [kw[sig[0]]]
            k2 = {n: v for n, v in kw.items() if n != sig[0]}
        _bmin_name[0] = name
        _nsum_name[0] = raw_name
        _gdf_name[0] = name
        try:
            r = m(ev, list(a2), dict(k2), env, e)
        except (IndexError, KeyError, TypeError):
            r = None
        if r is not None:
            return note(r)
    if any(x.op == "star" for x in args):
        if len(args) == 1 and not kw:
            return note(call(name, (("*", args[0].a[0]),)))
        return note(call(name, tuple([("*" + str(i), x.a[0] if x.op == "star" else x) for i, x in enumerate(args)] + list(kw.items()))))
    args = [strip(ev.funcval(x)) for x in args]
    kw = {k: strip(ev.funcval(v)) for k, v in kw.items()}
    sig = SIG.get(name)
    if sig is not None:
        d = bind_args(sig, DEFAULTS.get(name, {}), args, kw)
    else:
        d = {str(i): x for i, x in enumerate(args)}
        d.update(kw)
    return note(call(name, tuple(sorted(d.items()))))


# ------------------------------------------------------------------ methods

def row_lam(f):
    """Row functions: attribute and item access on the row coincide."""
    if f.op != "lam" or f.a[0].a[0] != 1:
        return f
    p = fresh("row")
    body = instantiate(f.a[0], [p])
    m = {}
    stack, seen = [body], set()
    while stack:
        x = stack.pop()
        if x.id in seen or p not in x.syms:
            continue
        seen.add(x.id)
        if x.op == "attr" and x.a[0] is p:
            m[x] = index(p, const(x.a[1]))
            continue
        stack.extend(V.kids(x))
    if m:
        body = substitute(body, m)
    return raw("lam", abstract(body, [p]))


def repo_sig(ev, name, args, kw):
    """Arguments of a repository method called on an untyped receiver."""
    sigs = {}
    for c in ev.p.classes.values():
        f = c.methods.get(name)
        if f is not None:
            a = f.node.args
            sigs[tuple(x.arg for x in a.posonlyargs + a.args)[1:]] = f
    if not sigs:
        return None
    longest = max(sigs, key=len)
    if any(longest[: len(s)] != s for s in sigs):
        return None
    f = sigs[longest]
    b = ev.bind(f, [NONE] + list(args), kw)
    if b is None:
        return None
    return {k: v for k, v in b.items() if k != "self" and v is not NONE}


def call_method(ev, recv, name, args, kw, env=None, e=None):
    for x in list(args) + list(kw.values()):
        if x.op == "raise":
            return x
    if recv.op == "extfn":
        return call_ext(ev, recv.a[0] + "." + name, args, kw, env, e)
    rs = repo_sig(ev, name, args, kw)
    if rs is not None and not name.startswith("__"):
        return note(call("." + name, tuple([("self", recv)] + sorted(rs.items()))))
    if name == "get" and len(args) + len(kw) in (1, 2) and args and ev.instdict(recv, args[0]):
        x = ev.kept(recv, args[0], env)
        dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
        return x if dflt is NONE else ite(eq_(ev, x, NONE), dflt, x)
    if recv.op == "call" and recv.a[0] == "re.compile" and name in ("match", "fullmatch", "search") and len(args) == 1 and not kw:
        d = dict(recv.a[1])
        if set(d) <= {"0", "1", "pattern", "flags"}:
            fl = d.get("1", d.get("flags"))
            return call_ext(ev, "re." + name, [d.get("0", d.get("pattern")), args[0]] + ([fl] if fl is not None else []), {}, env, e)
    if ispath(recv) and not kw:
        f = {"exists": "os.path.exists", "is_file": "os.path.isfile", "is_dir": "os.path.isdir"}.get(name)
        if f and not args:
            return call_ext(ev, f, [recv], {}, env, e)
        if name == "joinpath":
            return path_join(recv, *args)
    if name == "open" and ispath(recv):
        return call_ext(ev, "builtins.open", [recv] + list(args), kw, env, e)
    if name == "copy" and not args:
        return recv
    if name == "tolist" and not args:
        x = strip(recv)
        return cat(x)
    if name == "rjust" and len(args) == 2 and args[1].op == "const" and args[1].a[0] == "str" and args[1].a[1] == "0":
        return call(".zfill", (("self", recv), ("width", args[0])))
    if name == "total_seconds":
        return div(recv.a[0] if recv.op == "attr" and recv.a[1] == "dt" else recv, SEC)
    if name in ("gt", "lt", "ge", "le", "eq", "ne") and len(args) == 1 and not kw:
        return compare(ev, {"gt": "Gt", "lt": "Lt", "ge": "GtE", "le": "LtE", "eq": "Eq", "ne": "NotEq"}[name], recv, args[0])
    if name in ("add", "sub", "mul", "div", "truediv") and len(args) == 1 and not kw:
        return binop(ev, {"add": "Add", "sub": "Sub", "mul": "Mult", "div": "Div", "truediv": "Div"}[name], recv, args[0])
    if name == "items" and recv.op == "dict":
        return seq(*[seq(k, v) for k, v in recv.a[0]])
    if name == "keys" and recv.op == "dict":
        return seq(*[k for k, v in recv.a[0]])
    if name == "values" and recv.op == "dict":
        return seq(*[v for k, v in recv.a[0]])
    if name == "get" and recv.op == "dict" and args and args[0].op == "const":
        for k, v in recv.a[0]:
            if k is args[0]:
                return v
        return args[1] if len(args) > 1 else kw.get("default", NONE)
    if name == "get" and recv.op == "dict" and args and all(k.op in ("const", "enum") or numval(k) is not None for k, _ in recv.a[0]):
        r = args[1] if len(args) > 1 else NONE
        for k, v in reversed(recv.a[0]):
            r = ite(eq_(ev, args[0], k), v, r)
        return r
    if name == "join" and len(args) == 1:
        xs = tolist(ev, args[0])
        if recv.op == "const" and recv.a[1] == "" and xs.op == "seq":
            return concat(*xs.a[0])
    if name == "format" and recv.op == "const" and not kw:
        parts = recv.a[1].split("{}")
        if len(parts) == len(args) + 1 and "{" not in "".join(parts):
            out = [const(parts[0])]
            for p, a in zip(parts[1:], args):
                out += [tostr(a), const(p)]
            return concat(*out)
    if name == "any" and not args and not kw:
        return any_(recv)
    if name == "all" and not args and not kw:
        return all_(recv)
    if name == "__contains__" and len(args) == 1:
        return contains_(ev, args[0], recv)
    if name in ("__len__",):
        return length(recv)
    if name in ("dot",) and len(args) == 1:
        return call("numpy.matmul", (("0", strip(recv)), ("1", strip(args[0]))))
    if name in ("transpose",) and not args:
        return attr(recv, "T")
    if name in ("sum",) and not args and not kw and recv.op in ("arr",):
        return sum_(ev, recv)
    if name == "model_copy" and not args and set(kw) == {"deep"} and kw["deep"] is TRUE:
        return call("copy.deepcopy", (("x", strip(recv)),))
    if name == "clip" and (len(args) == 1 and not kw or not args and set(kw) == {"mask"}):
        x = recv
        while x.op == "update":
            x = x.a[0]
        if x.op == "call" and x.a[0] == "geopandas.GeoDataFrame":
            return call("geopandas.clip", (("gdf", recv), ("mask", strip(args[0] if args else kw["mask"]))))
    if name == "model_copy" and recv.op == "new":
        up = kw.get("update")
        d = dict(recv.a[1])
        if up is not None:
            its = dict_items(up)
            if its is None:
                return ev.opq("model_copy", e, env)
            d.update(its)
        return raw("new", recv.a[0], tuple(sorted(d.items())))
    args = [strip(ev.funcval(x)) if x.op != "star" else raw("star", x.a[0]) for x in args]
    kw = {k: strip(ev.funcval(v)) for k, v in kw.items()}
    recv = strip(recv) if name not in () else recv
    if name == "apply" and (kw.get("axis") is not None or len(args) > 1):
        if args:
            args[0] = row_lam(args[0])
        elif "func" in kw:
            kw["func"] = row_lam(kw["func"])
    if name == "apply" and len(args) == 1 and not kw and args[0].op == "lam" and recv.op == "attr" and recv.a[1] == "geometry":
        b = instantiate(args[0].a[0], [raw("sym", "#each")])
        if b.op == "attr" and b.a[0] is raw("sym", "#each") and b.a[1] in ("x", "y", "z"):
            return attr(recv, b.a[1])
    if name == "assign" and not args:
        r = recv
        for k, v in kw.items():
            if v.op == "lam":
                v = instantiate(v.a[0], [recv])
            r = update(r, const(k), v)
        return r
    kw.pop("inplace", None) if kw.get("inplace") is FALSE else None
    if name == "astype" and len(args) + len(kw) == 1:
        x = args[0] if args else kw.get("dtype", NONE)
        if x.op == "extfn" and x.a[0] in ("builtins.int", "builtins.float", "builtins.bool", "builtins.str"):
            args, kw = [const(x.a[0][9:])], {}
    sig = MSIG.get(name)
    if sig is not None:
        d = bind_args(sig, MDEF.get(name, {}), args, kw)
        if "axis" in d and d["axis"] is const("columns"):
            d["axis"] = num(1)
    else:
        d = {str(i): x for i, x in enumerate(args)}
        d.update(kw)
    if name == "sort_values" and d.get("by") is not None and d["by"].op == "seq" and len(d["by"].a[0]) == 1:
        d["by"] = d["by"].a[0][0]
    if name == "sort_values" and d.get("ignore_index") is TRUE:
        d.pop("ignore_index")
        return call_method(ev, note(call(".sort_values", tuple([("self", recv)] + sorted(d.items())))), "reset_index", [], {"drop": TRUE}, env, e)
    if name == "reset_index" and recv.op == "call" and recv.a[0] == ".reset_index" and d.get("drop") is TRUE and dict(recv.a[1]).get("drop") is TRUE:
        return recv
    return note(call("." + name, tuple([("self", recv)] + sorted(d.items()))))


@model("os.path.join")
def _join(ev, a, k, env, e):
    if len(a) > 1 and not k and not any(x.op == "star" for x in a):
        return path_join(*a)


def _a_parent(ev, v):
    if v.op == "call" and v.a[0] == "pathlib.Path":
        return call("os.path.dirname", (("0", v.a[1][0][1]),))
    if ispath(v):
        return call("os.path.dirname", (("0", v),))
    return None


ATTRS["parent"] = _a_parent


def _a_days(ev, v):
    """timedelta.days and timedelta.seconds."""
    t = ev.typeof(v)
    if v.op not in ("poly", "call", "attr") or t and t[0] == "class":
        return None
    if v.op == "attr" and v.a[1] == "dt":
        v = v.a[0]
    return floor(div(v, mul(num(86400), SEC)))


def _a_seconds(ev, v):
    d = _a_days(ev, v)
    if d is None:
        return None
    if v.op == "attr" and v.a[1] == "dt":
        v = v.a[0]
    return floor(sub(div(v, SEC), mul(num(86400), d)))


ATTRS["days"] = _a_days
ATTRS["seconds"] = _a_seconds


@model("pathlib.Path", "pathlib.PurePath")
def _path(ev, a, k, env, e):
    if not k and a and not any(x.op == "star" for x in a):
        p = a[0] if ispath(a[0]) else call("pathlib.Path", (("0", a[0]),))
        return path_join(p, *a[1:]) if len(a) > 1 else p


@hook("pathlib.Path")
def _hpath(d):
    return None


@model("pandas.notna")
def _notna(ev, a, k, env, e):
    if len(a) == 1 and not k:
        return not_(call_ext(ev, "pandas.isna", a, k, env, e))


@hook("pandas.Series")
def _hseries(d):
    if d.get("data") is NIL:
        return call("pandas.Series", tuple(sorted((k, v) for k, v in d.items() if k != "data")))


@model("geopandas.sjoin")
def _sjoin(ev, a, k, env, e):
    kw = dict(k)
    args = list(a)
    left = args.pop(0) if args else kw.pop("left_df")
    if "right_df" in kw:
        args.insert(0, kw.pop("right_df"))
    return call_method(ev, left, "sjoin", args, kw, env, e)


@hook("pandas.concat")
def _concat(d):
    if d.get("ignore_index") is TRUE:
        d2 = {k: v for k, v in d.items() if k != "ignore_index"}
        return call(".reset_index", (("drop", TRUE), ("self", call("pandas.concat", tuple(sorted(d2.items()))))))


@hook(".sort_values")
def _sv(d):
    # sorting forgets a previous plain re-index only together with the final re-index
    return None


@hook("numpy.linalg.norm")
def _norm(d):
    return None


@hook("len")
def _hlen(d):
    return None


def mutate(ev, recv, name, args, kw):
    if name == "append":
        return cat(recv, seq(args[0]))
    if name == "extend":
        x = tolist(ev, args[0])
        return cat(recv, x)
    if name == "insert" and numval(args[0]) == 0:
        return cat(seq(args[1]), recv)
    if name == "sort":
        d = {"0": strip(recv)}
        for n in ("key", "reverse"):
            if n in kw and kw[n] not in (NONE, FALSE):
                d[n] = ev.funcval(kw[n])
        return call("sorted", tuple(sorted(d.items())))
    if name == "update" and len(args) <= 1:
        r = recv
        if args:
            r = dict_merge(ev, r, args[0])
        for k, v in kw.items():
            r = update(r, const(k), v)
        return r
    if name == "add" and recv.op == "call" and recv.a[0] == "set":
        return call("set", (("0", cat(recv.a[1][0][1], seq(args[0]))),))
    if name == "reverse":
        return call("reversed", (("0", strip(recv)),))
    if name == "clear":
        return NIL
    if kw.get("inplace") is TRUE:
        kw = {k: v for k, v in kw.items() if k != "inplace"}
        return call_method(ev, recv, name, args, kw)
    if name == "__setitem__":
        return set_item(ev, recv, args[0], args[1])
    d = {str(i): strip(ev.funcval(x)) for i, x in enumerate(args)}
    d.update({k: strip(ev.funcval(v)) for k, v in kw.items()})
    return note(call("mutate:" + name, tuple([("self", recv)] + sorted(d.items()))))
