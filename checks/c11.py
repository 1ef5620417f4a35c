"""C11: extracted data objects"""
import copy

import numpy as np

from checks.c05 import build_request
from checks.c07 import fourier_field
from checks.common import check_extraction, field_unit, shuffled, slack
from mon.gen import Ax, AXUNITS, FUNITS, Fld, Norm_affine, Norm_func, Norm_ref, any_axis, any_field, chance, lin_axis, pick, ratio, values_for
from mon.ref import TR, extract, make_req, spectrum
from SciDataTool import VectorField

RULE = (
    "random field (1-4 axes, every symmetry, normalizations) and request (slices, units, reductions, derivatives, Fourier "
    "components, levels, ranked entries) extracted as an object; values, axes, units, names, normalizations compared with the request and the "
    "reference; second requests and second extractions on the extract compared with the direct request; vector fields; "
    "distinct = axis classes x request kinds x unit"
)
KINDS = ["whole", "whole", "idx", "list", "range", "interval", "val"]


def kinds_for(a):
    if a.labels is not None or a.is_step:
        return ["whole", "idx", "list"]
    return KINDS


def norms(rng, fld):
    if chance(rng, 0.5):
        r = float(pick(rng, [2.0, 0.3]))
        fld.norms = {"ref": lambda: Norm_ref(ref=r)}
        if chance(rng, 0.5):
            fld.norms["law"] = lambda: Norm_affine(slope=2.0, offset=1.0)


def same_meta(case, D, E, fld, unit, what):
    case.same(E.symbol, D.symbol, "symbol of " + what)
    case.same(E.name, D.name, "name of " + what)
    case.same(E.unit, unit, "unit of " + what)
    case.same(bool(E.is_real), bool(D.is_real), "real flag of " + what)
    case.same(sorted(E.normalizations), sorted(fld.norms), "normalizations of " + what)
    if "ref" in fld.norms:
        case.same(E.normalizations["ref"].ref, D.normalizations["ref"].ref, "reference of " + what)
        case.true(E.normalizations["ref"] is not D.normalizations["ref"], "normalizations of %s are its own" % what)


def dtype_of(names):
    return "DataTime" if "time" in names else "DataFreq" if "freqs" in names else "DataND"


def slices(case):
    """Object extracted by slices, then requests on it"""
    rng = case.rng
    fld = any_field(rng, syms="any", kind=pick(rng, ["f", "f", "c"]), comp=chance(rng, 0.2))
    norms(rng, fld)
    if np.iscomplexobj(fld.values) and chance(rng, 0.5):
        fld.is_real = False
    fld.name = "field " + pick(rng, ["a", "b"])
    D = case.lib(fld.build)
    reqs = [make_req(rng, a, kinds_for(a)) for a in fld.axes if chance(rng, 0.85)] or [make_req(rng, fld.axes[0], ["whole"])]
    u, k = field_unit(rng, fld)
    args = shuffled(rng, [r.text for r in reqs])
    case.log(fld)
    case.log("get_data_along", args, u)
    E = case.lib(D.get_data_along, *args, **({} if u == "SI" else {"unit": u}))
    exp, coords = extract(fld, reqs)
    order = [a for a in fld.axes if a.name in coords]
    # dimensions of the requested axes only
    exp = exp.reshape([len(coords[a.name]) for a in order]) * k
    case.same([x.name for x in E.axes], [a.name for a in order], "axes of the extract")
    case.same(type(E).__name__, dtype_of([a.name for a in order]), "class of the extract")
    case.eq(np.asarray(E.values).reshape(np.shape(E.values)), exp, "values of the extract %s" % args)
    same_meta(case, D, E, fld, fld.unit if u == "SI" else u, "the extract %s" % args)
    axes2 = []
    for a, x in zip(order, E.axes):
        r = [q for q in reqs if q.name == a.name][0]
        g = case.lib(x.get_values)
        c = coords[a.name]
        case.same(bool(x.is_components), a.labels is not None, "label flag of axis %s of the extract" % a.name)
        if a.labels is not None:
            case.same([str(s) for s in g], [str(s) for s in c], "components of the extract")
            b = Ax(a.name, a.unit, np.arange(len(c)), kind="comp")
            b.labels = list(c)
        else:
            if r.kind == "nearest":
                lim = abs(r.value - c[0]) + 1e-9 * (abs(c[0]) + abs(r.value))
                case.true(len(g) == 1 and abs(g[0] - c[0]) <= lim, "coordinate of the extract", got=g, expected=c)
                c = np.array(g, dtype=float)
            else:
                case.eq(np.asarray(g, dtype=float), c, "coordinates of the extract", rtol=2e-5, atol=1e-8 + slack(c))
                c = np.array(g, dtype=float) if slack(c) else c
            case.same(x.unit, a.unit if r.unit is None else r.unit, "unit of axis %s of the extract" % a.name)
            b = Ax(a.name, x.unit, np.array(g, dtype=float))
            b.lin = {"how": "extract"}
        case.true(not x.symmetries, "sliced axes carry no symmetry", got=x.symmetries)
        axes2.append(b)
    # Requests on the extract
    fld2 = Fld(axes2, exp, symbol=fld.symbol, unit=E.unit, name=fld.name, is_real=fld.is_real)
    for _ in range(2):
        reqs2 = []
        for b in axes2:
            mono = b.labels is not None or np.all(np.diff(b.stored) > 0)
            ks = ["whole", "idx", "list", "range"] + (["interval"] if mono and b.labels is None else [])
            if chance(rng, 0.85):
                r2 = make_req(rng, b, ks, unit_p=0.2 if b.unit in AXUNITS else 0)
                reqs2.append(r2)
        if reqs2:
            check_extraction(case, E, fld2, reqs2, punit=0.3 if E.unit in FUNITS else 0.0)
    case.sig(fld.cls(), u, [r.kind for r in reqs])


def chain(case):
    """Two extractions on disjoint axes = one request"""
    rng = case.rng
    fld = any_field(rng, syms="any", kind="f", pool=["time", "angle", "z", "speed"], naxes=int(rng.integers(2, 5)), uniform=True)
    norms(rng, fld)
    D = case.lib(fld.build)
    first, mid, second, direct, comp, sig = [], [], [], [], [], []
    late = [a for a in fld.axes if chance(rng, 0.5)] or [pick(rng, fld.axes)]
    for a in fld.axes:
        if a in late:
            keep = a.sym in ("period", "antiperiod") and chance(rng, 0.7)
            first.append(a.name + ("[smallestperiod]" if keep else ""))
            ops = ["max", "min", "sum"]
            if a.sym in (None, "period", "antiperiod") and (keep or a.sym is None) and len(a.stored) > 1 and a.is_phys:
                ops += ["mean", "rms", "integrate", "rss"]
                if a.name in ("time", "angle") and len(a.stored) > 2:
                    ops += ["derivate", "antiderivate"]
            if chance(rng, 0.5):
                op = pick(rng, ops)
                t = a.name + "=" + op
            else:
                # the extract recomputes the coordinates: no bound exactly on a sample
                b = copy.copy(a)
                b.lin = b.lin or {"how": "extract"}
                t = make_req(rng, b, kinds_for(a)).text
            direct.append(t)
            second.append(t)
            sig.append(t.split("=")[-1][:6])
        else:
            r = make_req(rng, a, ["whole", "idx", "list", "range"])
            first.append(r.text)
            direct.append(r.text)
            second.append(a.name)
    case.log(fld)
    case.log("first", first, "then", second, "direct", direct)
    E = case.lib(D.get_data_along, *shuffled(rng, first))
    ref = case.lib(D.get_along, *shuffled(rng, direct))
    got = case.lib(E.get_along, *shuffled(rng, second))
    tol = np.max(np.abs(np.asarray(ref[fld.symbol]))) if np.size(ref[fld.symbol]) else 1.0
    case.eq(np.asarray(got[fld.symbol]), np.asarray(ref[fld.symbol]), "request on the extract against direct request", rtol=1e-7, atol=1e-9 * tol + 1e-10 * np.max(np.abs(fld.values)))
    E2 = case.lib(E.get_data_along, *shuffled(rng, second))
    F = case.lib(D.get_data_along, *shuffled(rng, direct))
    case.eq(np.squeeze(E2.values), np.squeeze(F.values), "extract of the extract against direct extract", rtol=1e-7, atol=1e-9 * tol + 1e-10 * np.max(np.abs(fld.values)))
    case.same([x.name for x in E2.axes], [x.name for x in F.axes], "axes of the extract of the extract")
    case.same(E2.unit, F.unit, "unit of the extract of the extract")
    case.same(type(E2).__name__ if F.axes else 0, type(F).__name__ if F.axes else 0, "class of the extract of the extract")
    case.sig(fld.cls(), sorted(sig))


# unit, axis unit -> derivative, integral
UNITS = {
    ("T", "s"): ("T/s", "Ts"),
    ("T", "m"): ("T/m", "Tm"),
    ("mT", "s"): ("mT/s", "mTs"),
    ("mT", "m"): ("mT/m", "mTm"),
    ("A", "s"): ("A/s", "As"),
    ("A", "m"): ("A/m", "Am"),
    ("N", "s"): ("N/s", "Ns"),
    ("N", "m"): ("N/m", "Nm"),
    ("Nm", "m"): ("N", "Nm2"),
    ("Nm", "s"): ("Nm/s", "Nms"),
    ("m", "s"): ("m/s", "ms"),
    ("m", "m"): ("", "m2"),
    ("m2", "m"): ("m", "m3"),
    ("m2", "s"): ("m2/s", "m2s"),
    ("m/s", "s"): ("m/s2", "m"),
    ("m/s2", "s"): ("m/s3", "m/s"),
    ("N/m2", "m"): ("N/m3", "N/m"),
    ("N/m2", "s"): ("N/m2s", "Ns/m2"),
    ("N/m", "m"): ("N/m2", "N"),
    ("V", "s"): ("V/s", "Vs"),
    ("Vs", "s"): ("V", "Vs2"),
    ("W", "s"): ("W/s", "Ws"),
    ("Pa", "m"): ("Pa/m", "Pam"),
    ("Pa", "s"): ("Pa/s", "Pas"),
    ("mm", "m"): ("mm/m", "mmm"),
    ("mm", "s"): ("mm/s", "mms"),
    ("T", "ms"): ("T/ms", "Tms"),
    ("T", "mm"): ("T/mm", "Tmm"),
    ("A", "ms"): ("A/ms", "Ams"),
    ("N", "mm"): ("N/mm", "Nmm"),
}


def operations(case):
    """Units and values of reductions, derivatives and integrals"""
    rng = case.rng
    (unit, axu), (der, integ) = pick(rng, sorted(UNITS.items()))
    base = {"ms": "s", "mm": "m"}.get(axu, axu)
    nm = {"s": "time", "m": pick(rng, ["z", "z", "angle"])}[base]
    if nm == "angle" and axu != base:
        nm = "z"
    sym = pick(rng, [None, "period", "antiperiod"]) if nm != "z" else None
    ax = any_axis(rng, nm, sym=sym, uniform=True, n=int(rng.integers(3, 9)), start=0.0)
    other = [any_axis(rng, n2) for n2 in pick(rng, [[], ["speed"], ["load", "speed"]])]
    axes = shuffled(rng, [ax] + other)
    fld = Fld(axes, values_for(rng, axes, "f"), unit=unit)
    norms(rng, fld)
    D = case.lib(fld.build)
    ops = ["max", "min", "sum", "rss", "mean", "rms", "integrate", "integrate", "derivate", "derivate", "antiderivate", "integrate_local"]
    op = pick(rng, [o for o in ops if nm != "z" or o not in ("derivate", "antiderivate") or True])
    if op == "integrate_local" and nm != "z":
        op = "integrate"
    exp_unit = der if op == "derivate" else integ if op in ("integrate", "antiderivate", "integrate_local") else unit
    texts = ["%s=%s%s" % (nm, op, "" if axu == base else "{%s}" % axu)]
    for a in other:
        if chance(rng, 0.8):
            texts.append(make_req(rng, a, ["whole", "idx", "range"], unit_p=0.2).text)
    args = shuffled(rng, texts)
    case.log(fld)
    case.log(args)
    E = case.lib(D.get_data_along, *args)
    same_meta(case, D, E, fld, exp_unit, "the extract %s" % args)
    res = case.lib(D.get_along, *args, is_squeeze=False)
    v = np.asarray(res[fld.symbol])
    names = [a.name for a in fld.axes if a.name in [t.split("=")[0].split("[")[0].split("{")[0] for t in texts]]
    if op not in ("derivate", "antiderivate", "integrate_local"):
        names.remove(nm)
    case.same([x.name for x in E.axes], names, "axes of the extract")
    shape = [n for n, a in zip(v.shape, fld.axes) if a.name in names]
    case.eq(np.asarray(E.values), v.reshape(shape), "values of the extract %s" % args)
    for x in E.axes:
        g = case.lib(x.get_values, is_smallestperiod=True)
        case.eq(np.asarray(g, dtype=float), np.atleast_1d(res[x.name]), "coordinates of the extract", rtol=2e-5, atol=1e-8 + slack(res[x.name]))
        if x.name == nm:
            case.same(x.unit, axu if axu != base else ax.unit, "unit of the axis of the extract")
    # requests on the extract
    if names:
        r2 = case.lib(E.get_along, *[n + ("[smallestperiod]" if n == nm and op in ("derivate", "antiderivate") and sym else "") for n in names], is_squeeze=False)
        case.eq(np.asarray(r2[fld.symbol]), v.reshape(shape), "request on the extract")
    case.sig(fld.cls(), unit, axu, op)


def fourier(case):
    """Spectra extracted as objects"""
    rng = case.rng
    fld = fourier_field(rng, cplx=0.0, circle=True)
    norms(rng, fld)
    D = case.lib(fld.build)
    can = [a.name for a in fld.axes if a.name in TR and a.labels is None]
    ft = [n for n in can if chance(rng, 0.7)] or can[:1]
    v, lines = spectrum(fld, ft)
    u, k = field_unit(rng, fld, 0.2)
    texts, keep, coords, reqs = [], [], [], []
    for i, a in enumerate(fld.axes):
        if a.name in ft:
            texts.append(TR[a.name])
            keep.append(i)
            coords.append((TR[a.name], lines[TR[a.name]]))
        elif chance(rng, 0.8):
            r = make_req(rng, a, ["whole", "whole", "idx"] + ([] if a.sym == "pattern" else ["range"]), unit_p=0)
            texts.append(r.text)
            v = np.take(v, r.idx, axis=i)
            keep.append(i)
            coords.append((a.name, None if a.labels is not None else a.full[r.idx]))
        else:
            v = np.take(v, [0], axis=i)
    exp = v.reshape([v.shape[i] for i in keep]) * k
    args = shuffled(rng, texts)
    case.log(fld)
    case.log(args, u)
    E = case.lib(D.get_data_along, *args, **({} if u == "SI" else {"unit": u}))
    tol = 1e-10 * np.max(np.abs(fld.values)) * abs(k)
    case.same([x.name for x in E.axes], [c[0] for c in coords], "axes of the extract")
    case.same(type(E).__name__, dtype_of([c[0] for c in coords]), "class of the extract")
    case.eq(np.asarray(E.values), exp, "values of the extract %s" % args, atol=tol)
    same_meta(case, D, E, fld, fld.unit if u == "SI" else u, "the extract %s" % args)
    names = [c[0] for c in coords]
    res = case.lib(E.get_along, *shuffled(rng, names), is_squeeze=False)
    case.eq(np.asarray(res[fld.symbol]), exp, "request on the extract", atol=tol)
    for nme, c in coords:
        if c is not None:
            case.eq(np.atleast_1d(res[nme]), c, "coordinates given by the extract", rtol=2e-5, atol=1e-7 + slack(c))
    mag = case.lib(E.get_magnitude_along, *shuffled(rng, names), is_squeeze=False)
    case.eq(np.asarray(mag[fld.symbol]), np.abs(exp), "magnitude given by the extract", atol=tol)
    case.sig(fld.cls(), args, u)


def levels(case):
    rng = case.rng
    fld = any_field(rng, syms=None, kind="f", pool=["freqs", "load", "speed"], naxes=int(rng.integers(1, 4)), unit=pick(rng, ["Pa", "W", "T"]))
    fld.values = (2.0 + np.abs(fld.values)) * 100
    norms(rng, fld)
    D = case.lib(fld.build)
    unit = "dBA" if "freqs" in fld.names() and chance(rng, 0.5) else "dB"
    args = shuffled(rng, [make_req(rng, a, ["whole", "range"], unit_p=0).text for a in fld.axes])
    case.log(fld)
    case.log(args, unit)
    E = case.lib(D.get_data_along, *args, unit=unit)
    res = case.lib(D.get_magnitude_along, *args, unit=unit, is_squeeze=False)
    case.eq(np.asarray(E.values), np.asarray(res[fld.symbol]), "levels of the extract")
    same_meta(case, D, E, fld, unit, "the extract %s" % args)
    for x in E.axes:
        if fld.ax(x.name).labels is not None:
            case.same([str(c) for c in x.get_values()], [str(c) for c in np.atleast_1d(res[x.name])], "components of the extract")
        else:
            case.eq(np.asarray(x.get_values(), dtype=float), np.atleast_1d(res[x.name]), "coordinates of the extract", rtol=2e-5, atol=1e-8 + slack(res[x.name]))
    case.sig(fld.cls(), unit)


def ranking(case):
    """Extracts keep the ranking of the entries they keep"""
    rng = case.rng
    fld = any_field(rng, syms=pick(rng, [None, None, "any"]), comp=0.5, kind="f")
    for a in fld.axes:
        if a.sym != "pattern" and a.lin is None:
            a.rank = [int(k) for k in rng.permutation(len(a.full))]
    D = case.lib(fld.build)
    a = pick(rng, [b for b in fld.axes if b.rank] or fld.axes)
    if not a.rank:
        return
    i = fld.index(a.name)
    whole = a.name + pick(rng, ["", "[smallestperiod]"]) if a.sym else a.name
    q = make_req(rng, a, ["whole", "idx", "list", "list", "range"], unit_p=0)
    if q.kind == "whole":
        q.text = whole
    if len(set(q.idx)) < len(q.idx):
        return
    others = [make_req(rng, b, ["whole", "idx", "range"], unit_p=0) for b in fld.axes if b is not a]
    args = shuffled(rng, [r.text for r in others] + [q.text])
    kept = [k for k in a.rank if k in list(q.idx)]
    N = int(rng.integers(1, len(kept) + 2))
    exp, coords = extract(fld, others + [q])
    pos = [list(q.idx).index(k) for k in kept[:N]]
    case.log(fld)
    case.log("get_data_along", args, "ranking", a.rank, "then", N, "largest")
    E = case.lib(D.get_data_along, *args)
    for X, what in ((E, "extract"), (case.lib(E.get_data_along, *[b.name + ("[smallestperiod]" if b is a and "smallest" in whole else "") for b in fld.axes]), "extract of the extract")):
        res = case.lib(X.get_along, *shuffled(rng, ["%s[%dlargest]" % (a.name, N)] + [b.name for b in fld.axes if b is not a]), is_squeeze=False)
        case.eq(np.asarray(res[fld.symbol]), np.take(exp, pos, axis=i), "largest entries of the " + what)
        got, want = np.atleast_1d(res[a.name]), a.full[[q.idx[p] for p in pos]]
        if a.labels is not None:
            case.same([str(s) for s in got], [str(s) for s in want], "largest labels of the " + what)
        else:
            case.eq(np.asarray(got, dtype=float), want, "largest coordinates of the " + what, rtol=2e-5, atol=1e-8 + slack(a.full))
    # the source keeps its own ranking
    E.axes[[x.name for x in E.axes].index(a.name)].sort_indices.reverse()
    case.same(list(D.axes[i].sort_indices), a.rank, "ranking of the source")
    case.sig(a.cls(), q.kind, "smallest" in whole, N)


def axis_norms(case):
    """Normalizations of the axes of the extract"""
    rng = case.rng
    a = any_axis(rng, "z")
    kind = pick(rng, ["ref", "affine", "func"])
    mk = {"ref": lambda: Norm_ref(ref=2.0), "affine": lambda: Norm_affine(slope=2.0, offset=1.0), "func": lambda: Norm_func(function=lambda x: x * 4.0)}[kind]
    fn = {"ref": lambda x: x / 2.0, "affine": lambda x: 2.0 * x + 1.0, "func": lambda x: 4.0 * x}[kind]
    a.norms = {"nor": lambda ax, full: mk()}
    fld = Fld([a], values_for(rng, [a], "f"))
    D = case.lib(fld.build)
    r = make_req(rng, a, ["whole", "list", "range"], unit_p=0.3)
    case.log(fld)
    case.log(r.text, "then z->nor")
    E = case.lib(D.get_data_along, r.text)
    case.same(sorted(E.axes[0].normalizations), ["nor"], "normalizations of the axis of the extract")
    got = np.atleast_1d(case.lib(E.get_along, "z->nor")["z"])
    exp = fn(a.full[r.idx])
    if r.unit is not None and r.scale != 1.0 and not np.allclose(got, exp) and np.allclose(got, fn(a.full[r.idx] * r.scale), rtol=1e-4):
        case.known("converted-axis-normalization", "normalization of an axis extracted in another unit is applied to the converted coordinates")
        return
    case.eq(got, exp, "normalized coordinates given by the extract", rtol=2e-5, atol=1e-7)
    case.sig(a.cls(), kind, r.unit)


def vector(case):
    """Vector fields: every component is extracted"""
    rng = case.rng
    fld = any_field(rng, syms="any", kind="f", pool=["time", "angle", "z"])
    comps = pick(rng, [["radial", "tangential"], ["radial", "tangential", "axial"], ["comp_x", "comp_y"], ["comp_x", "comp_y", "comp_z"]])
    flds, cd = {}, {}
    for c in comps:
        f = Fld(fld.axes, values_for(rng, fld.axes, "f"), symbol="B", unit=fld.unit, name=c)
        flds[c] = f
        cd[c] = case.lib(f.build)
    V = case.lib(VectorField, name="vector", symbol="V", components=cd)
    reqs = [make_req(rng, a, kinds_for(a)) for a in fld.axes if chance(rng, 0.85)] or [make_req(rng, fld.axes[0], ["whole"])]
    u, k = field_unit(rng, fld)
    args = shuffled(rng, [r.text for r in reqs])
    case.log(fld, comps)
    case.log("get_vectorfield_along", args, u)
    E = case.lib(V.get_vectorfield_along, *args, **({} if u == "SI" else {"unit": u}))
    case.same(sorted(E.components), sorted(comps), "components of the extract")
    case.same((E.name, E.symbol, type(E).__name__), ("vector", "V", "VectorField"), "identity of the extract")
    for c in comps:
        exp, coords = extract(flds[c], reqs)
        order = [a for a in fld.axes if a.name in coords]
        X = E.components[c]
        case.eq(np.asarray(X.values), exp.reshape([len(coords[a.name]) for a in order]) * k, "values of component %s of the extract" % c)
        case.same([x.name for x in X.axes], [a.name for a in order], "axes of component %s" % c)
        case.same((X.name, X.symbol, X.unit), (c, "B", fld.unit if u == "SI" else u), "identity of component %s" % c)
    case.sig(fld.cls(), comps, u)


SCENARIOS = [
    ("slices", slices, 1000, 16000),
    ("chain", chain, 850, 16000),
    ("operations", operations, 700, 12000),
    ("fourier", fourier, 550, 10000),
    ("levels", levels, 200, 3000),
    ("ranking", ranking, 300, 5000),
    ("axis_norms", axis_norms, 200, 3000),
    ("vector", vector, 200, 4000),
]
