"""C01: requests only read, and do not depend on the requests made before"""
import contextlib
import copy
import io
import os

import numpy as np
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt

from SciDataTool import Data1D, VectorField
from checks import c15, c17, c18, c19, c27, c31
from checks.c07 import fourier_field
from checks.c08 import even_field, freq_object
from checks.c12 import NAMES, norm_of
from checks.c20 import Scratch
from checks.common import shuffled
from checks.plots import fourier_scene, ordered, plain_scene
from mon.gen import AXUNITS, FUNITS, Ax, Fld, Norm_ref, any_axis, any_field, chance, comp_axis, pick, values_for
from mon.objs import SPEC
from mon.ref import TR, user_points

RULE = (
    "random object (field of up to four axes with symmetries, patterns, labels, rankings and normalizations; spectrum; vector field; dual "
    "object; axis) asked 6 to 14 random requests, valid or not, drawn from the whole public interface, in random order and "
    "several times; before and after each call the object, its partners and the caller's arrays are photographed, everything "
    "returned is then overwritten and the object photographed again, and each answer is compared with the answer of a freshly "
    "built object; distinct = object class x kinds of requests"
)

BACK = {v: k for k, v in TR.items()}
OPS = ["max", "min", "sum", "mean", "rms", "rss", "integrate", "integrate_local", "derivate", "antiderivate"]


# ------------------------------------------------------------------ photographs
def photo(v):
    """Everything reachable from a value, in plain independent structures"""
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objects", v.shape, [photo(x) for x in v.ravel().tolist()])
        return ("array", np.array(v))
    if isinstance(v, (np.generic, int, float, complex)):
        return ("number", type(v).__name__, complex(v) if np.iscomplexobj(v) else v.item() if isinstance(v, np.generic) else v)
    if isinstance(v, dict):
        return ("dict", {str(k): photo(x) for k, x in v.items()})
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [photo(x) for x in v])
    nm = type(v).__name__
    if nm in SPEC:
        # the working slots of dual objects hold the domain of the last request
        skip = ("axes", "values") if nm == "DataDual" else ()
        return ("object " + nm, {a: photo(getattr(v, a)) for a in SPEC[nm] if a not in skip})
    if callable(v):
        try:
            return ("function", [complex(v(x)) for x in (0.5, -2.0, 3.25)])
        except Exception:
            return ("function", None)
    return ("other", nm)


def change(a, b, tol, path=""):
    """First difference between two photographs; tol 0 for the same bits"""
    if type(a) is not type(b):
        return "%s: %s instead of %s" % (path, str(a)[:120], str(b)[:120])
    if isinstance(a, (list, tuple)) and len(a) != len(b):
        return "%s: %d items instead of %d" % (path, len(a), len(b))
    if isinstance(a, tuple):
        if a[0] != b[0]:
            return "%s: %s instead of %s" % (path, a[0], b[0])
        if a[0] == "array":
            return array_change(a[1], b[1], tol, path)
        if a[0] == "number" and tol:
            return array_change(np.asarray(a[2]), np.asarray(b[2]), tol, path)
        for x, y in zip(a[1:], b[1:]):
            d = change(x, y, tol, path)
            if d:
                return d
        return None
    if isinstance(a, dict):
        if list(a) != list(b) if not tol else sorted(a) != sorted(b):
            return "%s: keys %s instead of %s" % (path, list(a), list(b))
        for k in a:
            d = change(a[k], b[k], tol, path + "." + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = change(x, y, tol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a != a and b != b:
        return None
    return None if a == b else "%s: %s instead of %s" % (path, str(a)[:120], str(b)[:120])


def array_change(x, y, tol, path):
    if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
        return "%s: %s%s instead of %s%s" % (path, x.dtype, x.shape, y.dtype, y.shape)
    if x.dtype.kind in "US" or not x.size:
        same = x.tolist() == y.tolist()
    elif not tol:
        same = x.dtype == y.dtype and np.ascontiguousarray(x).tobytes() == np.ascontiguousarray(y).tobytes()
    elif x.dtype.kind in "fc":
        fin = np.isfinite(y)
        top = np.max(np.abs(y[fin])) if fin.any() else 0.0
        d = np.abs(x - y)
        same = bool(np.all(np.where(fin, d <= tol * top, (x == y) | (np.isnan(x) & np.isnan(y)))))
    else:
        same = x.tolist() == y.tolist()
    return None if same else "%s: %s instead of %s" % (path, " ".join(str(x).split())[:150], " ".join(str(y).split())[:150])


# ------------------------------------------------------------------ calls
def slotless(out):
    """Description of a dual object without its working slots"""
    if out[0] == "answer" and isinstance(out[1], tuple) and out[1][0] == "dict" and out[1][1].get("__class__") == "DataDual":
        return (out[0], ("dict", {k: v for k, v in out[1][1].items() if k not in ("axes", "values")}))
    return out


class Call(object):
    """A request: what to do with an object, its partners and the caller's own objects"""

    def __init__(self, label, do, own=None, live=False):
        self.label = label
        self.do = do
        self.own = own or {}
        self.live = live  # returns the axes of the object itself

    def run(self, X, P, own):
        """(outcome, what was returned)"""
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = self.do(X, P, own)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as err:
            return ("error", type(err).__name__), None
        finally:
            plt.close("all")
        return ("answer", photo(res)), res


def method(name, *args, **kw):
    """Call of a method; arrays, lists and dictionaries among the options belong to the caller"""
    own = {k: v for k, v in kw.items() if isinstance(v, (list, dict, np.ndarray))}
    plain = {k: v for k, v in kw.items() if k not in own}
    label = "%s(%s)" % (name, ", ".join([repr(a) for a in args] + ["%s=%r" % i for i in kw.items()]))

    def do(X, P, own):
        return getattr(X, name)(*args, **dict(plain, **own))

    return Call(label, do, own, live=name == "get_axes")


def history(case, make, partners, calls, extra=4):
    """Answers of fresh objects, then all the requests on a single one"""
    rng = case.rng
    fresh = []
    for c in calls:
        fresh.append(c.run(make(), partners(), copy.deepcopy(c.own))[0])
        case.run.count(fresh[-1][0])
    X, P = make(), partners()
    order = shuffled(rng, list(range(len(calls))) + [int(rng.integers(len(calls))) for _ in range(extra)])
    first = photo((X, P))
    past = []
    for i in order:
        c = calls[i]
        own = copy.deepcopy(c.own)
        given = photo(own)
        case.log(c.label)
        out, res = c.run(X, P, own)
        d = change(photo((X, P)), first, 0)
        case.true(d is None, "%s changed %s" % (c.label, d), past=past)
        d = change(photo(own), given, 0)
        case.true(d is None, "%s changed what the caller gave: %s" % (c.label, d))
        d = change(slotless(out), slotless(fresh[i]), 1e-11)
        if type(X).__name__ == "DataDual" and c.label == "has_period()":
            d = None
        if type(X).__name__ == "DataDual" and out[0] == fresh[i][0] == "error":
            # a request failing in both domains fails for the first reason met
            continue
        if d is None and change(out, fresh[i], 1e-11) is not None:
            # dual objects keep the domain of the last request in their description
            case.known("dual-working-slots", "%s after %s does not answer as on a fresh object" % (c.label, past))
        case.true(d is None, "%s after %s does not answer as on a fresh object: %s" % (c.label, past, d))
        if not c.live and out[0] == "answer":
            ruin(res)
            d = change(photo((X, P)), first, 0)
            case.true(d is None, "changing what %s returned changed %s" % (c.label, d))
        past.append(c.label)
    case.true(True, "history")


def ruin(v, seen=None):
    """Overwrites everything a caller was handed"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    nm = type(v).__name__
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.ravel().tolist():
                ruin(x, seen)
        elif v.flags.writeable:
            v[...] = "?" if v.dtype.kind == "U" else 99
    elif isinstance(v, tuple):
        for x in v:
            ruin(x, seen)
    elif isinstance(v, list):
        for x in list(v):
            ruin(x, seen)
        if v:
            v.pop()
    elif isinstance(v, dict):
        for x in list(v.values()):
            ruin(x, seen)
        for k in list(v)[:1]:
            v.pop(k)
    elif nm in SPEC:
        for a in SPEC[nm]:
            ruin(getattr(v, a), seen)
        for a, kind in SPEC[nm].items():
            if kind == "str":
                setattr(v, a, "ruined")
            elif kind in ("float", "int"):
                setattr(v, a, 12345)
            elif kind == "bool":
                setattr(v, a, not getattr(v, a))
            elif kind == "function":
                setattr(v, a, "lambda x: 777.0")


# ------------------------------------------------------------------ requests
def text(rng, a, dual=True):
    """Part of a request about axis a, often but not always meaningful"""
    name = a.name
    if dual and chance(rng, 0.25):
        name = TR.get(name, BACK.get(name, name))
    if a.labels is not None:
        return name + pick(rng, ["", "[]", "[0]", "[0,%d]" % (len(a.labels) - 1), "[0:1]", "=" + a.labels[0], "=sum", "[7]", "[1largest]", "[2largest]", "[9largest]"])
    x = a.full
    n = len(x)
    t = name
    if chance(rng, 0.2) and a.norms:
        t += "->" + pick(rng, sorted(a.norms))
    elif chance(rng, 0.03):
        t += "->nothing"
    i, j = sorted(int(k) for k in rng.integers(0, n, 2))
    v, w = sorted((float(x[i]), float(x[j]) + 0.3 * float(np.ptp(x))))
    t += pick(
        rng,
        [
            "", "", "", "[]", "[%d]" % i, "[%d]" % i, "[%d:%d]" % (i, j + 1), "[%d,%d]" % (j, i), "[%d]" % (n + 3), "=%r" % v, "=%r" % w,
            "=[%r,%r]" % (v, w), "<%r" % w, ">%r" % v, "=" + pick(rng, OPS), "=" + pick(rng, OPS), "=" + pick(rng, OPS),
            "[oneperiod]", "[antiperiod]", "[smallestperiod]", "[pattern]", "=axis_data", "[2largest]", "[1largest]", "[%dlargest]" % n,
        ],
    )
    if chance(rng, 0.2):
        t += "{%s}" % pick(rng, list(AXUNITS.get(a.unit, ["SI"])) + ["SI", "Hz", "zz"])
    return t


def texts(rng, axes, dual=True):
    return [text(rng, a, dual) for a in shuffled(rng, axes) if chance(rng, 0.8)] + (["nothing"] if chance(rng, 0.03) else [])


def options(rng, fld, args):
    """Options of a request"""
    kw = {}
    if chance(rng, 0.4):
        kw["unit"] = pick(rng, list(FUNITS[fld.unit] if fld.unit in FUNITS else ["SI"]) + ["SI", "dB", "dBA", "zz"])
    if chance(rng, 0.2) and fld.norms:
        kw["is_norm"] = True
    data = {}
    for a in fld.axes:
        for nm in (a.name, TR.get(a.name), BACK.get(a.name)):
            if nm and any(t.startswith(nm) and "axis_data" in t for t in args) and chance(rng, 0.95):
                if a.labels is None:
                    data[nm] = np.array(user_points(rng, a)) if nm == a.name else np.array([0.0, 1.0, 2.0])
    if data or chance(rng, 0.1):
        kw["axis_data"] = data
    return kw


def reading(rng, fld):
    """Request of values"""
    args = texts(rng, fld.axes)
    kw = options(rng, fld, args)
    nm = pick(rng, ["get_along"] * 4 + ["get_magnitude_along", "get_phase_along", "get_data_along", "get_data_along", "get_harmonics"])
    if nm == "get_harmonics":
        if chance(rng, 0.4):
            kw["is_flat"] = True
        return method(nm, int(rng.integers(1, 5)), *args, **kw)
    if nm in ("get_along", "get_magnitude_along") and chance(rng, 0.4):
        kw["is_squeeze"] = False
    if nm == "get_along" and chance(rng, 0.1):
        kw["is_magnitude"] = True
    if chance(rng, 0.1):
        c = method(nm, tuple(args), **kw)
        return c
    return method(nm, *args, **kw)


def comparing(rng, fld):
    args = texts(rng, fld.axes)
    kw = options(rng, fld, args)
    kw.pop("axis_data", None)
    nm = pick(rng, ["compare_along", "compare_magnitude_along", "compare_phase_along"])
    alone = chance(rng, 0.1)

    def do(X, P, own):
        given = list(P)
        res = getattr(X, nm)(*args, data_list=given, **kw) if not alone else getattr(X, nm)(*args, **kw)
        assert len(given) == len(P) and all(a is b for a, b in zip(given, P)), "list of the caller changed"
        return res

    return Call("%s(%s, %s)" % (nm, args, kw), do)


def describing(rng, fld, dual=False):
    """Copies, dictionaries, equality, axes"""
    kind = pick(rng, ["copy", "dict", "eq", "compare", "axes", "str", "period", "save", "axis", "axis", "axis"])
    if kind == "copy":
        return Call("copy()", lambda X, P, own: X.copy())
    if kind == "dict":
        return Call("as_dict()", lambda X, P, own: X.as_dict())
    if dual and kind in ("eq", "compare"):
        kind = "dict"
    if kind == "eq":
        return Call("==", lambda X, P, own: [X == p for p in P])
    if kind == "compare":
        return Call("compare()", lambda X, P, own: [list(X.compare(p)) for p in P])
    if kind == "axes":
        names = [a.name for a in fld.axes if chance(rng, 0.4)]
        return method("get_axes", *names)
    if kind == "str":
        return Call("str()", lambda X, P, own: bool(str(X)))
    if kind == "period":
        return Call("has_period()", lambda X, P, own: getattr(X, "has_period", lambda: None)())
    if kind == "save":
        return Call("save()", saved)
    return axis_call(rng, fld)


def saved(X, P, own):
    with Scratch() as d:
        X.save(os.path.join(d, "object.json"))
    return None


def axis_call(rng, fld):
    i = int(rng.integers(len(fld.axes)))
    return on_axis(rng, fld.axes[i], lambda X: (X if hasattr(X, "axes") and X.axes else list(X.components.values())[0]).axes[i])


def on_axis(rng, a, get):
    nm = pick(rng, ["get_values", "get_values", "get_length", "get_periodicity", "get_axis_periodic", "to_linspace", "has_period", "copy", "as_dict", "get_filter"])
    args, kw = [], {}
    if nm in ("get_values", "get_length"):
        for k in ("is_oneperiod", "is_antiperiod", "is_smallestperiod", "is_pattern"):
            if chance(rng, 0.2):
                kw[k] = True
    if nm == "get_values":
        if chance(rng, 0.3):
            kw["unit"] = pick(rng, list(AXUNITS.get(a.unit, ["SI"])) + ["zz"])
        if a.norms and chance(rng, 0.4):
            kw["normalization"] = pick(rng, sorted(a.norms))
        if chance(rng, 0.15):
            kw["operation"] = pick(rng, ["time_to_freqs", "angle_to_wavenumber", "freqs_to_time"])
        if chance(rng, 0.15):
            kw["corr_unit"] = "rpm"
    if nm == "get_axis_periodic":
        args = [int(rng.integers(1, 5)), bool(rng.integers(2))]

    def do(X, P, own):
        return getattr(get(X), nm)(*args, **kw)

    return Call("axis %s: %s%s %s" % (a.name, nm, args, kw), do)


# ------------------------------------------------------------------ objects
def decorated(rng, fld):
    """Normalizations of the field and of its axes, rankings"""
    for a in fld.axes:
        if a.sym != "pattern" and a.lin is None and chance(rng, 0.4):
            a.rank = [int(k) for k in rng.permutation(len(a.full))]
        if a.labels is None and chance(rng, 0.4):
            a.norms = dict(a.norms or {})
            for nm in shuffled(rng, NAMES)[: int(rng.integers(1, 3))]:
                obj = norm_of(rng, a)[1]
                a.norms[nm] = lambda ax, full, obj=obj: copy.deepcopy(obj)
    if chance(rng, 0.4):
        r = pick(rng, [2.5, 2e-5, 1.0])
        fld.norms = {"ref": lambda: Norm_ref(ref=r)}
    return fld


def twin(rng, fld):
    """Other values over the same axes"""
    v = fld.values[..., ::-1] * 2 if chance(rng, 0.5) else fld.values.copy()
    return Fld(fld.axes, v, symbol=fld.symbol, unit=fld.unit, name=fld.name, is_real=fld.is_real, norms=fld.norms)


def fields(case):
    """Fields in the stored domain and their Fourier transforms"""
    rng = case.rng
    while True:
        fld = any_field(rng, syms=pick(rng, [None, "any", "any"]), maxn=6) if chance(rng, 0.5) else fourier_field(rng, maxn=7)
        if fld.full.size < 3000:
            break
    decorated(rng, fld)
    twins = [twin(rng, fld) for _ in range(int(rng.integers(1, 3)))]
    case.log(fld)
    calls = []
    for _ in range(int(rng.integers(6, 13))):
        k = pick(rng, ["read"] * 6 + ["compare", "describe", "describe", "convert"])
        if k == "read":
            calls.append(reading(rng, fld))
        elif k == "compare":
            calls.append(comparing(rng, fld))
        elif k == "describe":
            calls.append(describing(rng, fld))
        else:
            calls.append(method(pick(rng, ["time_to_freq", "to_datadual"])))
    history(case, fld.build, lambda: [t.build() for t in twins], calls)
    case.sig(fld.cls(), sorted({c.label.split("(")[0] for c in calls}))


def spectra(case):
    """Spectra, their sums, products and waveforms"""
    rng = case.rng
    if chance(rng, 0.3):
        S1, f1, a1, S2, f2, a2, t, kw, _ = c15.setup(case)
        ax = Ax("freqs", "Hz", np.asarray(f1, dtype=float))
        fld = Fld([ax], np.asarray(a1), symbol=S1.symbol, unit=S1.unit)
        make, partners = S1.copy, lambda: [S2.copy()]
    else:
        while True:
            fld = freq_object(even_field(rng, minn=2))[0]
            if fld.full.size < 2000:
                break
        decorated(rng, fld)
        other = twin(rng, fld)
        make, partners = fld.build, lambda: [other.build()]
        kw = {}
    case.log(fld)
    calls = []
    for _ in range(int(rng.integers(6, 13))):
        k = pick(rng, ["read"] * 6 + ["compare", "describe", "describe", "convert", "combine", "octave"])
        if k == "read":
            calls.append(reading(rng, fld))
        elif k == "compare":
            calls.append(comparing(rng, fld))
        elif k == "describe":
            calls.append(describing(rng, fld))
        elif k == "octave":
            n = pick(rng, [1, 3, 7])
            calls.append(method(pick(rng, ["get_along", "get_magnitude_along"]), "freqs->1/%d oct" % n, unit=pick(rng, ["SI", "dB", "dBA"])))
        elif k == "combine":
            nm = pick(rng, ["sum", "conv"])
            calls.append(Call(nm, lambda X, P, own, nm=nm: getattr(X, nm)(P[0], **kw)))
        else:
            calls.append(method(pick(rng, ["freq_to_time", "to_datadual"])))
    history(case, make, partners, calls)
    case.sig(fld.cls(), sorted({c.label.split("(")[0] for c in calls}))


def vectors(case):
    rng = case.rng
    while True:
        axes, stored, flds, norm = c19.make(rng, fourier=chance(rng, 0.6))
        some = list(flds.values())[0]
        if some.full.size < 1500:
            break
    if chance(rng, 0.4):
        decorated(rng, Fld(axes, some.values, unit=some.unit))
    case.log(some, list(flds))
    calls = []
    for _ in range(int(rng.integers(5, 10))):
        k = pick(rng, ["read"] * 5 + ["convert", "convert", "describe", "component", "extract"])
        args = texts(rng, axes)
        kw = options(rng, some, args)
        if k == "read":
            nm = pick(rng, ["get_rphiz_along", "get_xyz_along", "get_mag_rphiz_along", "get_mag_xyz_along", "get_harm_rphiz_along", "get_harm_xyz_along"])
            pre = (int(rng.integers(1, 4)),) if "harm" in nm else ()
            calls.append(method(nm, *(pre + tuple(args)), **kw))
        elif k == "extract":
            calls.append(method("get_vectorfield_along", *args, **kw))
        elif k == "convert":
            nm = pick(rng, ["to_xyz", "to_rphiz", "time_to_freq", "freq_to_time", "change_periodicity"])
            calls.append(method(nm, *([int(rng.integers(1, 4)), int(rng.integers(1, 4))] if nm == "change_periodicity" else [])))
        elif k == "component":
            c = reading(rng, some)
            comp = pick(rng, sorted(flds))
            calls.append(Call("component %s: %s" % (comp, c.label), lambda X, P, own, c=c, comp=comp: c.do(X.components[comp], P, own), c.own))
        else:
            calls.append(describing(rng, Fld(axes, some.values)))
    other = {c: twin(rng, f) for c, f in flds.items()}
    history(case, lambda: c19.build(flds), lambda: [c19.build(other)], calls)
    case.sig(some.cls(), sorted(flds), sorted({c.label.split("(")[0] for c in calls}))


def duals(case):
    rng = case.rng
    how = pick(rng, ["init", "time+freq", "freq+time", "time", "freq"])
    fld, frq = c27.pair(rng, related=how in ("time", "freq") or chance(rng, 0.5))
    case.log(fld, frq, how)
    calls = []
    for _ in range(int(rng.integers(5, 10))):
        side = fld if chance(rng, 0.5) else frq
        calls.append(reading(rng, side) if chance(rng, 0.8) else describing(rng, Fld(side.axes, side.values), dual=True))
    calls = [c for c in calls if not c.label.startswith("axis") and not c.label.startswith("get_axes")]
    if not calls:
        return
    history(case, lambda: c27.dual(case, fld, frq, how), lambda: [c27.dual(case, fld, frq, how)], calls)
    case.sig(fld.cls(), frq.cls(), how, sorted({c.label.split("(")[0] for c in calls}))


def sources(case):
    """Objects sharing their axes, normalizations or components with what they were made from"""
    rng = case.rng
    fld, frq = c27.pair(rng, related=True)
    decorated(rng, fld)
    case.log(fld)
    calls = []
    for _ in range(6):
        k = pick(rng, ["read", "read", "dual", "freq", "ref", "leak"])
        if k == "read":
            calls.append(reading(rng, fld))
        else:
            first = {"dual": "to_datadual", "freq": "time_to_freq"}.get(k)
            then = [reading(rng, fld if chance(rng, 0.5) else frq) for _ in range(2)]

            def do(X, P, own, first=first, then=then, k=k):
                if first:
                    Y = getattr(X, first)()
                elif k == "ref":
                    Y = X.change_referential(60.0, False)[0]
                else:
                    Y = X.filter_spectral_leakage(own["f"])
                out = []
                for t in then:
                    out.append(t.run(Y, [], copy.deepcopy(t.own))[0])
                return out

            calls.append(Call("%s then %s" % (k, [t.label for t in then]), do, {"f": np.array([0.0, 50.0])}))
    history(case, fld.build, lambda: [], calls)
    case.sig(fld.cls())


def transforms(case):
    """Referential, periodicity, leakage and sparse recovery"""
    rng = case.rng
    kind = pick(rng, ["ref", "ref", "leak", "leak", "omp", "per"])
    partners = lambda: []
    if kind == "ref":
        base, f0 = c17.make(rng, cplx=0.05)
        sym = {"period": 2} if chance(rng, 0.3) else {}
        speeds = [c17.speed_of(rng, f0)[1] for _ in range(3)]
        special = [method("change_referential", s, bool(rng.integers(2)), sym_t_new=dict(sym)) for s in speeds]
        vec = ["radial", "tangential"]
    elif kind == "leak":
        axes, f, rs, other, df, real = c18.make(rng)
        base = Fld(axes, c18.signal(axes, c18.amplitudes(rng, f, rs, other, real), real), is_real=real)
        special = [leak(f * k) for k in (1.0, 0.5)]
        vec = ["radial", "axial"]
    elif kind == "per":
        base = Fld([c31.axis(rng, "time"), c31.axis(rng, "angle")], None)
        base.values = values_for(rng, base.axes, "f")
        pt, pa = [c31.divisors(c31.periods(a)) for a in base.axes]
        special = [method("change_periodicity", pick(rng, pa), pick(rng, pt)) for _ in range(3)]
        vec = ["tangential", "radial"]
    else:
        n = int(rng.integers(20, 50))
        x = np.arange(n) / n
        M = np.sort(rng.choice(n, n // 2, replace=False))
        axes = [Ax("time", "s", x[M].copy())]
        if chance(rng, 0.5):
            axes.append(any_axis(rng, "angle", n=3))
        base = Fld(axes, values_for(rng, axes, "f"))
        special = [recover(x, int(rng.integers(1, 5)))]
        vec = None
    if kind != "per":
        decorated(rng, base)
    case.log(kind, base)
    vector = vec is not None and (kind == "per" or chance(rng, 0.35))
    calls = list(special)
    if vector:
        flds = {c: Fld(base.axes, base.values * (1.0 + i), symbol="B_" + c[0], unit=base.unit, is_real=base.is_real) for i, c in enumerate(vec)}
        for _ in range(3):
            calls.append(method(pick(rng, ["get_rphiz_along", "get_xyz_along"]), *texts(rng, base.axes)))
        make = lambda: c19.build(flds)
        if chance(rng, 0.5):
            # components over the same axes objects
            def make():
                axes = [a.build() for a in base.axes]
                return VectorField(name="F", symbol="B", components={c: f.build(axes=axes) for c, f in flds.items()})
    else:
        calls += [reading(rng, base) for _ in range(4)]
        make = base.build
    history(case, make, partners, calls)
    case.sig(kind, base.cls(), vector)


def leak(f):
    return Call("filter_spectral_leakage(%s)" % f.tolist(), lambda X, P, own: X.filter_spectral_leakage(own["f"]), {"f": np.array(f)})


def recover(x, n):
    own = {"Time": Data1D(name="time", unit="s", values=x.copy())}
    return Call("orthogonal_mp(%d)" % n, lambda X, P, own: X.orthogonal_mp(own["Time"], n_coefs=n), own)


def drawn(fig):
    """What a figure shows"""
    out = []
    for ax in fig.axes:
        one = [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), list(ax.get_xlim()), list(ax.get_ylim())]
        for l in ax.lines:
            one.append([l.get_label(), str(l.get_color()), l.get_linestyle(), np.ma.filled(np.ma.asarray(l.get_xdata(), dtype=float), np.nan), np.ma.filled(np.ma.asarray(l.get_ydata(), dtype=float), np.nan)])
        for p in ax.patches:
            if hasattr(p, "get_height"):
                one.append([str(p.get_facecolor()), float(p.get_x()), float(p.get_y()), float(p.get_width()), float(p.get_height())])
        for c in ax.collections:
            v = c.get_array()
            one.append([type(c).__name__, None if v is None else np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)])
        leg = ax.get_legend()
        one.append([] if leg is None else [t.get_text() for t in leg.get_texts()])
        out.append(one)
    return out


def figures(case):
    """Figures and files"""
    rng = case.rng
    nmain = pick(rng, [1, 1, 2])
    fld, sc = plain_scene(rng, nmain=nmain) if chance(rng, 0.6) else fourier_scene(rng, nmain=nmain)
    decorated(rng, fld)
    twins = [twin(rng, fld) for _ in range(2)]
    case.log(fld)
    calls = []
    for _ in range(4):
        k = pick(rng, ["2D", "2D", "3D", "file", "read"] if nmain == 1 else ["3D", "3D", "2D", "file", "read"])
        args = ordered(rng, sc)
        if chance(rng, 0.15):
            args = texts(rng, fld.axes)
        unit = pick(rng, ["SI", "SI", fld.unit, "dB"])
        data = {} if sc.axis_data is None else sc.axis_data
        own = {"axis_data": data, "legend_list": ["one", "two", "three"], "color_list": ["r", "g", "b"], "linestyles": ["-", ":", "--"], "linewidth_list": [1.0, 2.0, 3.0], "data_list": None}
        if k == "read":
            calls.append(reading(rng, fld))
        elif k == "file":
            calls.append(exported(args, unit, chance(rng, 0.5), {k: own[k] for k in ("axis_data",)}))
        else:
            use = [o for o in ("legend_list", "color_list", "linestyles", "linewidth_list") if chance(rng, 0.3)]
            n = int(rng.integers(0, 3))
            kw = {}
            if chance(rng, 0.3):
                kw["type_plot"] = pick(rng, ["curve", "bargraph", "point"]) if k == "2D" else pick(rng, ["pcolormesh", "scatter", "stem"])
            calls.append(plotted("plot_%s_Data" % k, args, unit, n, {o: own[o] for o in ["axis_data"] * bool(data) + use * (k == "2D")}, kw))
    history(case, fld.build, lambda: [t.build() for t in twins], calls, extra=2)
    case.sig(fld.cls(), sorted({c.label.split("(")[0] for c in calls}))


def plotted(nm, args, unit, n, own, kw):
    def do(X, P, own):
        opts = dict(kw, **own)
        given = list(P[:n])
        if n and nm == "plot_2D_Data":
            opts["data_list"] = given
        for k in ("legend_list", "color_list", "linestyles", "linewidth_list"):
            if k in opts:
                opts[k] = own[k]
        getattr(X, nm)(*args, unit=unit, is_show_fig=False, **opts)
        assert len(given) == n, "list of the caller changed"
        return drawn(plt.gcf())

    return Call("%s(%s, %s, %d others, %s %s)" % (nm, args, unit, n, sorted(own), kw), do, own)


def exported(args, unit, flat, own):
    def do(X, P, own):
        with Scratch() as d:
            X.export_along(*args, unit=unit, is_2D=flat, save_path=d, plot_options=own["plot_options"])
            out = {}
            for r, _, names in os.walk(d):
                for f in sorted(names):
                    with open(os.path.join(r, f), encoding="utf-8", errors="replace") as h:
                        out[f] = h.read()
            return out

    return Call("export_along(%s, %s, is_2D=%s)" % (args, unit, flat), do, {"plot_options": {"x_min": None}})


def axes(case):
    rng = case.rng
    if chance(rng, 0.15):
        a = comp_axis(rng)
    else:
        a = any_axis(rng, pick(rng, ["time", "angle", "z", "speed", "freqs"]), sym=pick(rng, [None, "any"]))
    decorated(rng, Fld([a], None))
    case.log(a)
    calls = [on_axis(rng, a, lambda X: X) for _ in range(8)]
    calls.append(Call("==", lambda X, P, own: X == P[0]))
    history(case, a.build, lambda: [a.build()], calls)
    case.sig(a.cls(), sorted({c.label for c in calls}))


SCENARIOS = [
    ("fields", fields, 150, 3900),
    ("spectra", spectra, 84, 1550),
    ("vectors", vectors, 84, 1550),
    ("duals", duals, 84, 1550),
    ("sources", sources, 56, 1050),
    ("transforms", transforms, 100, 1950),
    ("figures", figures, 35, 450),
    ("axes", axes, 150, 3900),
]
