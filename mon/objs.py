"""Recipes of library objects: plain descriptions (class and attributes) which can be
built as many times as needed, and read back from the public attributes of an object.
A recipe is independent of the library: what an object should contain is known without
asking the library to compare anything."""
import copy

import numpy as np

import SciDataTool as S
from SciDataTool.Classes.Normalization import Normalization
from mon.gen import chance, pick, rnd

DATA = {"symbol": "str", "name": "str", "unit": "str", "normalizations": "norms"}
AXIS = {"is_components": "bool", "symmetries": "dict", "is_overlay": "bool"}
ND = dict(DATA, axes="axes", FTparameters="dict", values="field", is_real="bool")
SPEC = {
    "Data": DATA,
    "Data1D": dict(DATA, values="array", delimiter="str", sort_indices="ints", filter="filter", char_to_rm="strs", **AXIS),
    "DataLinspace": dict(DATA, initial="float", final="float", step="float", number="int", include_endpoint="bool", **AXIS),
    "DataPattern": dict(DATA, rebuild_indices="ints", unique_indices="ints", is_step="bool", values="array", values_whole="array", **AXIS),
    "DataND": ND,
    "DataTime": ND,
    "DataFreq": ND,
    "DataDual": dict(ND, axes_dt="axes", values_dt="matrix", axes_df="axes", values_df="matrix"),
    "VectorField": {"name": "str", "symbol": "str", "components": "comps"},
    "Normalization": {"unit": "str"},
    "Norm_ref": {"unit": "str", "ref": "float"},
    "Norm_affine": {"unit": "str", "slope": "float", "offset": "float"},
    "Norm_func": {"unit": "str", "function": "function"},
    "Norm_vector": {"unit": "str", "vector": "array"},
    "Norm_indices": {"unit": "str"},
    "RequestedAxis": {
        "name": "str", "corr_name": "str", "unit": "str", "corr_unit": "str", "extension": "str", "values": "array",
        "indices": "ints", "input_data": "array", "operation": "str", "index": "int", "transform": "str",
        "is_pattern": "bool", "rebuild_indices": "array", "is_step": "bool", "noct": "int", "corr_values": "array",
        "is_components": "bool",
    },
}
NORMS = ["Norm_ref", "Norm_affine", "Norm_func", "Norm_vector", "Norm_indices"]
AXES = ["Data1D", "DataLinspace", "DataPattern"]
# functions given as text can be written in files
FUNCS = ["lambda x: 2 * x", "lambda x: x + 0.5", "lambda x: x ** 2 - 1", "lambda x: -x"]
CLS = {c: getattr(S, c, None) or Normalization for c in SPEC}


class Obj(object):
    """Description of an object; attributes left out keep their default value"""

    def __init__(self, cls, **attrs):
        self.cls = cls
        self.attrs = attrs

    def __repr__(self):
        return "%s(%s)" % (self.cls, ", ".join("%s=%s" % (k, " ".join(repr(v).split())) for k, v in self.attrs.items()))


def build(r):
    """Library object described by a recipe (nothing of the recipe is shared)"""
    if isinstance(r, Obj):
        return CLS[r.cls](**{k: build(v) for k, v in r.attrs.items()})
    if isinstance(r, list):
        return [build(x) for x in r]
    if isinstance(r, dict):
        return {k: build(x) for k, x in r.items()}
    return copy.deepcopy(r)


def value(v):
    """Canonical form of an attribute value or object"""
    if isinstance(v, Obj):
        return canon(v)
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (bool, np.bool_)):
        return ("bool", bool(v))
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.kind, v.shape, tuple(repr(x) for x in v.ravel().tolist()))
    if isinstance(v, (int, np.integer)):
        return ("number", repr(float(v)))
    if isinstance(v, (float, np.floating)):
        return ("number", repr(float(v)))
    if isinstance(v, list):
        return ["list"] + [value(x) for x in v]
    if isinstance(v, dict):
        return {k: value(x) for k, x in v.items()}
    if callable(v):
        return ("function", tuple(float(v(x)) for x in (0.5, -2.0, 3.25)))
    if type(v).__name__ in SPEC:
        return read(v)
    return ("other", repr(v))


DEFAULT = {
    "str": "", "bool": None, "array": None, "matrix": None, "field": None, "float": None, "int": None, "ints": None,
    "strs": None, "filter": None, "axes": None, "function": None, "norms": {}, "dict": {}, "comps": {},
}
SPECIAL = {
    ("Normalization", "unit"): "SI", ("Norm_ref", "ref"): 1, ("Norm_affine", "slope"): 1, ("Norm_affine", "offset"): 0,
    ("Data1D", "delimiter"): None, ("DataLinspace", "include_endpoint"): True, ("DataPattern", "is_step"): True,
    ("RequestedAxis", "operation"): None, ("RequestedAxis", "transform"): None,
}


def default(cls, attr):
    """Documented default of an attribute"""
    if (cls, attr) in SPECIAL:
        return SPECIAL[cls, attr]
    if attr == "unit" and cls in NORMS:
        return "SI"
    if attr == "is_real":
        return True
    kind = SPEC[cls][attr]
    return False if kind == "bool" else copy.copy(DEFAULT[kind])


def canon(r):
    """What the object described by a recipe has to contain"""
    out = {}
    for a, kind in SPEC[r.cls].items():
        v = r.attrs[a] if a in r.attrs else default(r.cls, a)
        if kind == "function" and isinstance(v, str):
            v = eval(v)
        out[a] = value(v)
    return (r.cls, out)


def read(o):
    """What an object contains, from its public attributes"""
    return (type(o).__name__, {a: value(getattr(o, a)) for a in SPEC[type(o).__name__]})


def difference(a, b, path="object"):
    """First difference between two canonical forms, None if there is none"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and isinstance(a[1], dict) and isinstance(b[1], dict):
        if a[0] != b[0]:
            return "%s: type %s instead of %s" % (path, a[0], b[0])
        return difference(a[1], b[1], path)
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b) and sorted(a) != sorted(b):
            return "%s: %s instead of %s" % (path, sorted(a), sorted(b))
        for k in a:
            d = difference(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, "%s[%d]" % (path, i - 1))
            if d:
                return d
        return None
    return None if a == b else "%s: %s instead of %s" % (path, str(a)[:150], str(b)[:150])


def diff(o, r):
    """First difference between an object and a recipe (or another object)"""
    return difference(read(o), canon(r) if isinstance(r, Obj) else read(r))


# --- random values
def word(rng, empty=0.1):
    if chance(rng, empty):
        return ""
    return pick(rng, ["B_r", "time", "flux density", "mm", "N/m2", "été", "a\"b'c", "x=1, y", "Θ", "angle_rotor", " ", "None", "-1"]) + pick(rng, ["", "_1", " z"])


def number(rng, kind="float"):
    v = pick(rng, [0, 1, -1, 2, 7, 0.1, 1e-9, -3.5, 1e12, 2.5]) if kind == "float" else pick(rng, [0, 1, 2, 3, 7, 12])
    if kind == "float" and chance(rng, 0.4):
        v = rnd(rng, -10, 10)
    if chance(rng, 0.15):
        v = np.float64(v) if kind == "float" else np.int64(v)
    return v


def array(rng, n=None, kinds="fffiU", dims=1):
    n = n or int(rng.integers(1, 5))
    kind = pick(rng, list(kinds))
    shape = (n,) if dims == 1 else tuple(int(k) for k in rng.integers(1, 4, dims))
    if kind == "i":
        return rng.integers(-9, 9, shape)
    if kind == "U":
        return np.array(["p%d, r=%d" % (i, i % 2) for i in range(int(np.prod(shape)))]).reshape(shape)
    v = np.round(rng.normal(size=shape) * 10, int(rng.integers(0, 16)))
    return v + 1j * np.round(rng.normal(size=shape), 3) if kind == "c" else v


def simple(rng, kind):
    """Random value of a kind of attribute without nested objects"""
    if kind == "str":
        return word(rng)
    if kind == "bool":
        return chance(rng, 0.5)
    if kind in ("float", "int"):
        return number(rng, kind)
    if kind == "dict":
        return pick(rng, [{}, {"period": 2}, {"antiperiod": 4}, {"delta": 0.25}, {"x": [1, 2]}, {"a": "b", "c": 1.5}, {"nested": {"k": [1, 2]}}])
    if kind == "ints":
        return [int(k) for k in rng.integers(0, 5, int(rng.integers(0, 4)))]
    if kind == "strs":
        return [word(rng) for _ in range(int(rng.integers(0, 3)))]
    if kind == "filter":
        return {"attr%d" % i: [word(rng) for _ in range(int(rng.integers(0, 3)))] for i in range(int(rng.integers(0, 3)))}
    if kind == "array":
        return array(rng)
    if kind == "matrix":
        return array(rng, kinds="fc", dims=2)
    if kind == "function":
        return pick(rng, FUNCS)
    raise KeyError(kind)


def norm(rng):
    cls = pick(rng, NORMS)
    return any_obj(rng, cls)


def norms(rng):
    return {k: norm(rng) for k in pick(rng, [[], ["ref"], ["ref", "elec_order"], ["a b"]])}


def axis(rng, n=None, unset=0.1):
    """Axis of n samples"""
    cls = pick(rng, AXES)
    n = n or int(rng.integers(1, 4))
    r = any_obj(rng, cls, unset=unset, skip=("values", "initial", "final", "step", "number", "include_endpoint", "name"))
    r.attrs["name"] = pick(rng, ["time", "angle", "z", "freqs", "speed"])
    if cls == "DataLinspace":
        r.attrs.update(initial=0.0, include_endpoint=False)
        r.attrs.update(pick(rng, [dict(final=float(n), number=n), dict(step=0.5, number=n), dict(final=0.5 * n, step=0.5)]))
        if "number" not in r.attrs:
            r.attrs["symmetries"] = {}
    else:
        r.attrs["values"] = array(rng, n)
    return r


def fields(rng, cls, unset):
    if chance(rng, unset):
        return {"axes": None, "values": None}
    axes = [axis(rng) for _ in range(int(rng.integers(1, 4)))]
    shape = []
    for a in axes:
        v = a.attrs.get("values")
        shape.append(len(v) if v is not None else int(a.attrs.get("number") or round(a.attrs["final"] / a.attrs["step"])))
    v = rng.normal(size=shape)
    if chance(rng, 0.3) or (cls == "DataFreq" and chance(rng, 0.5)):
        v = v + 1j * rng.normal(size=shape)
    elif chance(rng, 0.2):
        v = rng.integers(-5, 5, shape)
    return {"axes": axes, "values": v}


def any_obj(rng, cls=None, unset=0.15, left=0.2, skip=()):
    """Random object: each attribute left to its default, unset (None) or set"""
    cls = cls or pick(rng, list(SPEC))
    r = Obj(cls)
    for a, kind in SPEC[cls].items():
        if a in skip or kind == "field" or chance(rng, left):
            continue
        if kind == "axes" and a == "axes":
            r.attrs.update(fields(rng, cls, unset) if cls != "DataDual" or chance(rng, 0.3) else {})
        elif chance(rng, unset):
            r.attrs[a] = None
        elif kind == "axes":
            r.attrs[a] = [axis(rng) for _ in range(int(rng.integers(0, 3)))]
        elif kind == "norms":
            r.attrs[a] = norms(rng)
        elif kind == "comps":
            r.attrs[a] = {k: any_obj(rng, pick(rng, ["DataTime", "DataFreq", "DataND"])) for k in pick(rng, [[], ["radial"], ["comp_x", "comp_y"], ["radial", "tangential", "axial"]])}
        else:
            r.attrs[a] = simple(rng, kind)
    return r


def walk(r, path="self"):
    """(path, recipe of the parent, attribute) of every attribute of an object, at any depth"""
    for a in SPEC[r.cls]:
        p = "%s.%s" % (path, a)
        yield p, r, a
        v = r.attrs.get(a)
        if isinstance(v, Obj):
            for x in walk(v, p):
                yield x
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, Obj):
                    for y in walk(x, "%s[%d]" % (p, i)):
                        yield y
        elif isinstance(v, dict):
            for k, x in v.items():
                if isinstance(x, Obj):
                    for y in walk(x, "%s[%s]" % (p, k)):
                        yield y


def scramble(o):
    """Changes in place everything reachable from an object"""
    for a in SPEC[type(o).__name__]:
        spoil(getattr(o, a))
    for a, kind in SPEC[type(o).__name__].items():
        if kind in ("str",):
            setattr(o, a, "scrambled")
        elif kind in ("float", "int"):
            setattr(o, a, 12345)
        elif kind == "bool":
            setattr(o, a, not getattr(o, a))
        elif kind == "function":
            setattr(o, a, "lambda x: 777.0")


def spoil(v):
    if isinstance(v, np.ndarray):
        if v.flags.writeable:
            v[...] = "?" if v.dtype.kind == "U" else 99
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.append("scrambled")
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoil(x)
        v["scrambled"] = 99
    elif type(v).__name__ in SPEC:
        scramble(v)
