"""C22: ill-formed objects and requests are rejected, well-formed ones accepted"""
import copy

import logging

import numpy as np

import SciDataTool as S
from SciDataTool.Classes._check import CheckDimError, CheckError
from SciDataTool.Classes._frozen import FrozenError
from checks.c20 import same
from checks.common import shuffled
from mon.gen import any_axis, any_field, chance, pick, values_for
from mon.objs import AXES, CLS, FUNCS, NORMS, SPEC, Obj, any_obj, array, axis, build, canon, default, difference, norm, norms, read, simple, value, word

logging.disable(logging.CRITICAL)

RULE = (
    "each attribute of each of the 16 classes given values of wrong types (constructor, assignment, dictionary, inside lists "
    "and dictionaries) and well-formed values in every accepted form; fields given values of shapes which match their axes or "
    "not (same size, transposed, longer, shorter, with and without size-one axes); unknown attributes; malformed requests on "
    "random fields; what is read back is compared with the description of the object; distinct = class x attribute x value"
)

PAIRS = [(c, a) for c in SPEC for a in SPEC[c]]
FIELDS = ["DataND", "DataTime", "DataFreq"]


class Thing(object):
    def __repr__(self):
        return "Thing()"


def wrong(kind):
    """Values of a wrong type"""
    T = Thing()
    if kind == "str":
        return [3, 2.5, True, ["a"], {}, np.array(["a"]), T, ("a",), b"a", 1j]
    if kind == "bool":
        return [0, 1, 1.0, "True", "", [], [True], {}, np.array([True]), T]
    if kind == "float":
        return ["1", "1.0", True, False, [1.0], {}, np.array([1.0]), np.array(1.0), 1j, T, (1.0,)]
    if kind == "int":
        return [1.5, 2.0000001, 3 - 1e-9, 1e-7, "1", True, [1], {}, np.array([1]), 2j, T, (1,)]
    if kind == "dict":
        return [[], [1], "period", 3, 2.5, True, np.array([1]), T, (1,), {1, 2}]
    if kind == "filter":
        return [[], ["a"], "a", 3, True, np.array([1]), T]
    if kind in ("ints", "strs"):
        return ["ab", 3, 2.5, True, {}, {"a": 1}, np.array([1, 2]), (1, 2), T]
    if kind in ("array", "matrix"):
        return ["ab", 3, 2.5, True, {}, {"a": 1}, (1.0, 2.0), T, 1j, [[1.0], [1.0, 2.0]]]
    if kind == "field":
        return ["ab", 3, 2.5, True, {}, {"a": 1}, (1.0, 2.0), T, [[1.0], [1.0, 2.0]]]
    if kind == "axes":
        return ["time", 3, 2.5, True, {}, S.Data1D(name="a", values=np.arange(2.0)), (S.Data1D(),), [S.Norm_ref()], [S.VectorField()], [3], [2.5], [T], [None], [["a"]], [np.arange(3.0)], np.arange(3.0), T] + [[S.Data1D(name="a%d" % i, values=np.arange(2.0)) for i in range(n)] + [x] for n in (1, 2, 3) for x in (3, S.Norm_ref(), "time", None)]
    if kind == "norms":
        return ["ref", 3, 2.5, True, [], [S.Norm_ref()], S.Norm_ref(), {"ref": "x"}, {"ref": S.Data1D()}, {"ref": None}, {"ref": T}, {"a": S.Norm_ref(), "ref": "lambda x: x"}, {"ref": (1, 2)}, T]
    if kind == "comps":
        return ["radial", 3, 2.5, True, [], [S.DataTime()], S.DataTime(), {"radial": 3}, {"radial": S.Data1D()}, {"radial": S.VectorField()}, {"radial": None}, {"radial": T}, {"radial": np.ones(3)}, {"radial": S.DataTime(), "axial": S.Norm_ref()}, {"radial": "nofile"}, {"radial": S.DataTime(), "axial": "no/file.json"}]
    if kind == "function":
        return [3, 2.5, True, [], {}, "sin", "", np.array([1]), T]
    raise KeyError(kind)


def rejected(case, what, fn, *args, **kw):
    err = case.raises(what, fn, *args, exc=CheckError, **kw)
    case.true(str(err) != "", "message of the error")


def types(case):
    """Wrong types, for each attribute and value"""
    rng = case.rng
    cls, a = PAIRS[case.index % len(PAIRS)]
    kind = SPEC[cls][a]
    bad = wrong(kind)
    v = bad[(case.index // len(PAIRS)) % len(bad)] if len(bad) <= 20 and case.index < 20 * len(PAIRS) else pick(rng, bad)
    r = any_obj(rng, cls, unset=pick(rng, [0, 0.2]), left=0.2)
    if kind == "field" and r.attrs.get("axes") is None:
        r.attrs.update(axes=[Obj("Data1D", name="time", values=np.arange(3.0))], values=np.ones(3))
    case.log(r)
    case.log("%s = %r" % (a, v))
    o = case.lib(build, r)
    rejected(case, "%s.%s = %r" % (cls, a, v), setattr, o, a, v)
    same(case, o, r, "object after a rejected assignment")
    kw = {k: build(x) for k, x in r.attrs.items() if k != a}
    if kind == "axes" and a == "axes":
        kw.pop("values", None)
    kw[a] = v
    rejected(case, "%s(%s=%r)" % (cls, a, v), CLS[cls], **kw)
    if kind not in ("axes", "norms", "comps", "field"):
        d = o.as_dict()
        d[a] = v
        rejected(case, "%s(init_dict={%s: %r})" % (cls, a, v), CLS[cls], init_dict=d)
    case.sig(cls, a, repr(v)[:40])


def unknown(case):
    """Attributes which do not exist, nested dictionaries of unknown classes"""
    rng = case.rng
    cls = list(SPEC)[case.index % len(SPEC)]
    r = any_obj(rng, cls)
    o = case.lib(build, r)
    name = pick(rng, ["foo", "value", "Values", "axis", "names", "units", "symmetry", "x", "component", "period", "n"])
    case.log(r)
    case.log("unknown attribute", name)
    case.raises("%s.%s = 1" % (cls, name), setattr, o, name, 1, exc=FrozenError)
    case.true(not hasattr(o, name), "unknown attribute not kept")
    same(case, o, r, "object after a rejected assignment")
    c = case.lib(o.copy)
    case.raises("%s.%s = 1 on a copy" % (cls, name), setattr, c, name, 1, exc=FrozenError)
    case.raises("%s(%s=1)" % (cls, name), CLS[cls], **{name: 1})
    case.raises("init_dict which is not a dictionary", CLS[cls], init_dict=pick(rng, [[], "a", 3]))
    where = [a for a, k in SPEC[cls].items() if k in ("axes", "norms", "comps")]
    if where:
        a = pick(rng, where)
        d = {"__class__": pick(rng, ["DataUnknown", "", "time", "data1d"]), "name": "time"}
        v = [d] if SPEC[cls][a] == "axes" else {"ref": d}
        case.log(a, v)
        case.raises("nested object of an unknown class", setattr, o, a, v, exc=CheckError)
        same(case, o, r, "object after a rejected assignment")
        # known class, but not of the right family
        d = {"__class__": {"axes": "Norm_ref", "norms": "Data1D", "comps": "Data1D"}[SPEC[cls][a]]}
        v = [d] if SPEC[cls][a] == "axes" else {"ref": d}
        case.raises("nested object of a wrong class", setattr, o, a, v, exc=CheckError)
        same(case, o, r, "object after a rejected assignment")
    case.sig(cls, name)


def listing(v):
    return v.tolist() if isinstance(v, np.ndarray) else v


def forms(rng, kind):
    """(value given, value read back) of a well-formed value"""
    if kind == "str":
        v = word(rng, 0.2)
        return v, v
    if kind == "bool":
        v = chance(rng, 0.5)
        return v, v
    if kind == "float":
        v = pick(rng, [0, 3, -2, 10**12, 0.0, 2.5, -1.5e-7, 1, -1])
        return pick(rng, [v, float(v), np.float64(v)] + ([np.int64(v)] + ([np.int32(v)] if abs(v) < 1e9 else []) if isinstance(v, int) else [])), v
    if kind == "int":
        v = int(rng.integers(-3, 12))
        return pick(rng, [v, float(v), np.float64(v), np.int64(v), np.int32(v)]), v
    if kind in ("array", "matrix"):
        v = array(rng, kinds="fiU" if kind == "array" else "fc", dims=1 if kind == "array" else 2)
        how = pick(rng, ["array", "list", "default", "empty"])
        if how == "default":
            return -1, np.array([])
        if how == "empty":
            return [], np.array([])
        return (v.tolist() if how == "list" else v.copy()), v
    if kind in ("dict", "ints", "strs", "filter"):
        if chance(rng, 0.15):
            return -1, {} if kind in ("dict", "filter") else []
        v = simple(rng, kind)
        return copy.deepcopy(v), v
    if kind == "function":
        v = pick(rng, FUNCS)
        return pick(rng, [v, eval(v)]), eval(v)
    if kind == "axes":
        if chance(rng, 0.1):
            return -1, []
        v = [axis(rng) for _ in range(int(rng.integers(0, 3)))]
        return [build(x) if chance(rng, 0.5) else build(x).as_dict(type_handle_ndarray=int(rng.integers(0, 2))) for x in v], v
    if kind == "norms":
        if chance(rng, 0.1):
            return -1, {}
        given, back = {}, {}
        for k in pick(rng, [["ref"], ["ref", "order"], ["a", "b", "c"]]):
            how = pick(rng, ["object", "dict", "number", "numpy", "list", "array", "text"])
            n = norm(rng)
            if how == "number":
                x = pick(rng, [2, 2.5, 1e-5, -3])
                given[k], n = x, Obj("Norm_ref", ref=x)
            elif how == "numpy":
                x = pick(rng, [np.float64(2.5), np.int64(4), np.int32(7), np.float32(0.5)])
                given[k], n = x, Obj("Norm_ref", ref=x.item())
            elif how in ("list", "array"):
                x = array(rng, kinds="fi")
                given[k], n = x.tolist() if how == "list" else x, Obj("Norm_vector", vector=x)
            else:
                given[k] = build(n).as_dict() if how == "dict" else build(n)
            back[k] = n
        return given, back
    if kind == "comps":
        if chance(rng, 0.1):
            return -1, {}
        v = {k: any_obj(rng, pick(rng, FIELDS)) for k in pick(rng, [[], ["radial"], ["comp_x", "comp_y"]])}
        return {k: build(x) if chance(rng, 0.5) else build(x).as_dict() for k, x in v.items()}, v
    raise KeyError(kind)


def accept(case):
    """Well-formed values of each attribute"""
    rng = case.rng
    cls, a = PAIRS[case.index % len(PAIRS)]
    kind = SPEC[cls][a]
    r = any_obj(rng, cls, unset=0.1, left=0.2)
    if kind == "field" or (kind == "axes" and a == "axes"):
        case.nobs += 1
        return
    given, back = forms(rng, kind)
    if chance(rng, 0.1):
        given, back = None, None
    case.log(r)
    case.log("%s = %r" % (a, given))
    r2 = Obj(cls, **dict(r.attrs, **{a: back}))
    before = value(given)
    how = pick(rng, ["assign", "init", "dict"])
    if how == "assign":
        o = case.lib(build, r)
        case.lib(setattr, o, a, given)
    else:
        kw = {k: build(x) for k, x in r.attrs.items() if k != a}
        kw[a] = given
        if how == "dict" and not (kind in ("axes", "norms", "comps") and not isinstance(given, (dict, list))):
            o = case.lib(CLS[cls], init_dict=kw)
        else:
            o = case.lib(CLS[cls], **kw)
    same(case, o, r2, "object with %s given" % a)
    if isinstance(given, (dict, list, np.ndarray)):
        case.true(value(given) == before, "value given by the caller is left unchanged", got=given)
    case.sig(cls, a, type(given).__name__, how)


def defaults(case):
    """Objects without any attribute given"""
    cls = list(SPEC)[case.index % len(SPEC)]
    o = case.lib(CLS[cls])
    r = Obj(cls)
    same(case, o, r, "object built without arguments")
    same(case, case.lib(CLS[cls], init_dict={}), r, "object built from an empty dictionary")
    # defaults are not shared
    case.true(value(o) == value(case.lib(CLS[cls])), "default object")
    from mon.objs import scramble

    case.lib(scramble, o)
    same(case, case.lib(CLS[cls]), r, "object built after changing another one")
    case.sig(cls)


def shapes(case):
    """Values whose shape matches the axes or not"""
    rng = case.rng
    cls = pick(rng, FIELDS)
    axes = [axis(rng, int(rng.integers(1, 5)), unset=0) for _ in range(int(rng.integers(1, 4)))]
    ns = [len(x.attrs["values"]) if "values" in x.attrs else int(x.attrs.get("number") or round(x.attrs["final"] / x.attrs["step"])) for x in axes]
    good = rng.normal(size=ns) + (1j * rng.normal(size=ns) if chance(rng, 0.3) else 0)
    if chance(rng, 0.2):
        good = rng.integers(-5, 5, ns)
    core = [n for n in ns if n > 1]
    r = Obj(cls, name="field", symbol="X", axes=axes, values=good)
    # well-formed: size-one axes may be left out or added
    w = good
    how = pick(rng, ["same", "squeezed", "extra", "list"])
    if how == "squeezed":
        w = np.squeeze(good)
    elif how == "extra":
        w = np.expand_dims(good, int(rng.integers(good.ndim + 1)))
    w = w.tolist() if how == "list" else w.copy()
    if not isinstance(w, (list, np.ndarray)):
        w = good.copy()
    case.log(cls, ns, how)
    o = case.lib(CLS[cls], name="field", symbol="X", axes=[build(x) for x in axes], values=copy.deepcopy(w))
    same(case, o, r, "field built with values (%s)" % how)
    new = good * 2
    o2 = case.lib(build, r)
    case.lib(setattr, o2, "values", (new if how == "same" else np.squeeze(new) if how == "squeezed" else np.expand_dims(new, 0) if how == "extra" else new.tolist()))
    case.eq(o2.values, new, "values assigned (%s)" % how, rtol=0, atol=0)
    # ill-formed
    bads = [tuple(ns) + (2,), (2,) + tuple(ns), tuple(n + 1 for n in ns), tuple(ns[:-1]) + (ns[-1] + 1,), (int(np.prod(ns)) + 1,), (0,), tuple(ns[:-1]) + (0,)]
    if len(core) > 1:
        bads += [(int(np.prod(ns)),), tuple(ns[:-1]) if ns[-1] > 1 else tuple(core[:-1])]
        if core != core[::-1]:
            bads += [tuple(ns[::-1]), tuple(core[::-1])]
    if max(ns) > 2:
        k = int(np.argmax(ns))
        bads += [tuple(ns[:k]) + (ns[k] - 1,) + tuple(ns[k + 1 :])]
    shape = pick(rng, bads)
    if [n for n in shape if n != 1] == core:
        case.sig(cls, tuple(ns), how)
        return
    v = np.ones(shape)
    if chance(rng, 0.3) and 0 not in shape:
        v = v.tolist()
    case.log("wrong shape", shape)
    case.raises("%s axes with %s values" % (ns, shape), CLS[cls], axes=[build(x) for x in axes], values=v, exc=CheckDimError)
    case.raises("%s axes assigned %s values" % (ns, shape), setattr, o, "values", v, exc=CheckDimError)
    same(case, o, r, "field after a rejected assignment")
    case.raises("%s axes with %s values from a dictionary" % (ns, shape), CLS[cls], init_dict=dict(o.as_dict(), values=v), exc=CheckDimError)
    case.sig(cls, tuple(ns), how, shape)


def requests(case):
    """Malformed requests"""
    rng = case.rng
    fld = any_field(rng, syms="any", kind="f", uniform=True)
    D = case.lib(fld.build)
    a = pick(rng, [x for x in fld.axes if x.labels is None] or fld.axes)
    others = [x.name for x in fld.axes if x is not a and chance(rng, 0.7)]
    bad = ["unit", "funit", "norm", "axisdata", "is_norm"]
    if not a.is_aper:
        bad += ["antiperiod", "antiperiod"]
    if a.sym != "pattern":
        bad += ["pattern"]
    how = pick(rng, bad)
    kw = {}
    if how == "unit":
        text = "%s{%s}" % (a.name, pick(rng, ["foo", "xyz", "m/foo", "T" if a.unit != "T" else "s", "kg"]))
    elif how == "funit":
        text = a.name
        kw = {"unit": pick(rng, ["foo", "xyz", "kg", "m/foo", "bar"])}
    elif how == "norm":
        text = "%s->%s" % (a.name, pick(rng, ["foo", "elec", "unknown"]))
    elif how == "axisdata":
        text = a.name + "=axis_data"
        if chance(rng, 0.5):
            kw = {"axis_data": {"other": np.array([0.1, 0.2])}}
    elif how == "is_norm":
        if "ref" in fld.norms:
            case.nobs += 1
            return
        text, kw = a.name, {"is_norm": True}
    else:
        text = "%s[%s]" % (a.name, how)
    args = shuffled(rng, [text] + others)
    meth = pick(rng, ["get_along", "get_along", "get_data_along", "get_magnitude_along"])
    case.log(fld)
    case.log(meth, args, kw)
    case.raises("%s(%s, %s)" % (meth, args, kw), getattr(D, meth), *args, **kw)
    res = case.lib(D.get_along, *[x.name for x in fld.axes], is_squeeze=False)
    case.eq(res[fld.symbol], fld.full, "values after the rejected request")
    case.sig(fld.cls(), how, meth)


SCENARIOS = [
    ("types", types, 20 * len(PAIRS), 60 * len(PAIRS)),
    ("unknown", unknown, 300, 3000),
    ("accept", accept, 8 * len(PAIRS), 80 * len(PAIRS)),
    ("defaults", defaults, len(SPEC), len(SPEC)),
    ("shapes", shapes, 1000, 18000),
    ("requests", requests, 1000, 18000),
]
