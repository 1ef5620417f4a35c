"""C25: comparison of several data objects"""
import numpy as np

from checks.c05 import _All
from checks.c07 import fourier_field
from checks.common import field_unit, shuffled
from mon.gen import AX_BASE, AXUNITS, SPAN, Ax, Fld, Norm_ref, any_axis, any_field, axis_1d, chance, comp_axis, lin_axis, pick, ratio, rnd, values_for
from mon.ref import TR, apply_matrix, extract, lerp_matrix, make_req

RULE = (
    "lists of one to four data objects over the same axes (1-3 axes, in the same or another storage order, some axes shared, "
    "the others resampled, shortened, shifted or far from zero; plain or symmetric; waveforms asked for values, spectra and "
    "phases) compared over whole axes, ranges, single samples, reductions and units; common axis checked against the overlap, "
    "every returned field against the linear interpolation of the plain answer of its own object; distinct = number of "
    "objects x axis classes x kind of comparison x request"
)

KINDS = {"field": ("compare_along", "get_along"), "magnitude": ("compare_magnitude_along", "get_magnitude_along"), "phase": ("compare_phase_along", "get_phase_along")}


def resampled(rng, name, shared, off, unif=True):
    """One sampling of an axis: offset far from zero possible, at least a few steps of overlap"""
    span = SPAN.get(name, 1.0)
    n = int(rng.integers(6, 14))
    if shared is not None:
        return shared
    start = off * span + pick(rng, [0.0, 0.0, rnd(rng, 0, 0.2) * span])
    stop = off * span + span * (1.0 - pick(rng, [0.0, 0.0, rnd(rng, 0, 0.2)]))
    step = (stop - start) / (n - 1)
    if not unif:
        d = 0.4 + rng.random(n - 1)
        x = start + (stop - start) * np.concatenate([[0.0], np.cumsum(d) / d.sum()])
        return Ax(name, AX_BASE[name], x, "1d")
    if chance(rng, 0.5):
        return lin_axis(rng, name, n, start, step=step)
    return axis_1d(rng, name, n, start, step=step)


def same_coords(a, b):
    return len(a) == len(b) and np.allclose(a, b, rtol=0, atol=1e-9 * (np.max(np.abs(a)) + 1e-300))


def near(c, x):
    """Common coordinates so close to own ones that they may be taken as equal"""
    if len(c) != len(x) or len(x) < 2:
        return False
    return 0 < np.max(np.abs(c - x)) <= 3e-3 * np.min(np.abs(np.diff(x)))


def check(case, Ds, flds, args, kind, kw, order=None):
    """Runs the comparison and the plain requests"""
    comp, plain = KINDS[kind]
    case.log(comp, args, kw, "%d others" % (len(Ds) - 1))
    res = case.lib(getattr(Ds[0], comp), *args, data_list=Ds[1:], **kw)
    own = [case.lib(getattr(D, plain), *args, **kw) for D in Ds]
    keys = [flds[0].symbol] + ["%s_%d" % (f.symbol, i) for i, f in enumerate(flds[1:])]
    for k in keys:
        case.true(k in res, "one result per object", keys=sorted(res), expected=keys)
    skip = {"axes_list", "axes_dict_other"}
    names = [n for n in own[0] if n not in skip and n != flds[0].symbol]
    live = []
    common = {}
    for n in names:
        if isinstance(own[0][n], str):
            case.same(res[n], own[0][n], "reduced axis")
            continue
        xs = [np.atleast_1d(np.asarray(o[n])) for o in own]
        c = np.atleast_1d(np.asarray(res[n]))
        if len(xs[0]) == 1:
            case.eq(c, xs[0], "single sample of %s" % n)
            continue
        live.append(n)
        common[n] = c
        if xs[0].dtype.kind in "US":
            case.eq(c, xs[0], "labels")
            continue
        lo, hi = max(x[0] for x in xs), min(x[-1] for x in xs)
        scale = max(np.max(np.abs(x)) for x in xs)
        eps = 1e-9 * scale
        case.true(c[0] >= lo - eps and c[-1] <= hi + eps, "common axis %s inside the overlap" % n, got=c, lo=lo, hi=hi)
        case.true(np.all(np.diff(c) > 0), "common axis %s increases" % n, got=c)
        # every further object may cost one step at each end
        coarse = max(np.max(np.diff(x)) for x in xs) * max(1, len(xs) - 1)
        case.true(c[0] - lo <= coarse + eps and hi - c[-1] <= coarse + eps, "common axis %s covers the overlap" % n, got=c, lo=lo, hi=hi)
        if all(same_coords(x, xs[0]) for x in xs):
            case.eq(c, xs[0], "shared axis %s unchanged" % n)
    for j, (D, f, o, k) in enumerate(zip(Ds, flds, own, keys)):
        v = np.asarray(o[f.symbol])
        mine = [n for n in o if n in live]
        case.true(v.ndim == len(mine), "dimensions of the plain request", shape=v.shape, axes=mine)
        v = np.transpose(v, [mine.index(n) for n in live])
        changed = False
        for i, n in enumerate(live):
            if common[n].dtype.kind in "US":
                continue
            x = np.asarray(o[n])
            if same_coords(x, common[n]):
                continue
            if near(common[n], x):
                return False
            changed = True
            v = apply_matrix(lerp_matrix(x, common[n]), v, i)
        got = np.asarray(res[k])
        size = np.max(np.abs(np.asarray(o[f.symbol])))
        case.eq(got, v, "object %d on the common axes" % j, rtol=1e-9 if changed else 0.0, atol=(1e-8 if changed else 1e-13) * size)
        case.run.count("interpolated" if changed else "unchanged")
    return True


def build(rng, naxes, nobj, order, syms=False):
    names = shuffled(rng, ["time", "angle", "z", "speed"])[:naxes]
    shared, offs, unif = {}, {}, {}
    for n in names:
        offs[n] = pick(rng, [0.0, 0.0, rnd(rng, -1, 1), 40.0, -300.0]) if n not in ("angle",) else 0.0
        unif[n] = chance(rng, 0.75)
        if chance(rng, 0.4):
            shared[n] = resampled(rng, n, None, offs[n], unif[n])
    label = comp_axis(rng, n=int(rng.integers(2, 4))) if chance(rng, 0.15) and naxes < 3 else None
    flds = []
    unit = pick(rng, ["T", "N", "Pa"])
    for j in range(nobj):
        axes = [resampled(rng, n, shared.get(n), offs[n], unif[n]) for n in names]
        if label is not None:
            axes.append(label)
        if j and order:
            axes = shuffled(rng, axes)
        f = Fld(axes, values_for(rng, axes, pick(rng, ["f", "f", "c"])), symbol=pick(rng, ["B", "F"]), unit=unit)
        flds.append(f)
    return flds


def fields(case, order=False):
    rng = case.rng
    nobj = int(rng.integers(2, 5))
    naxes = int(rng.integers(2 if order else 1, 4))
    flds = build(rng, naxes, nobj, order)
    kind = pick(rng, ["field", "field", "magnitude", "phase"])
    args = []
    for a in flds[0].axes:
        r = rng.random()
        if a.labels is not None or r < 0.65:
            args.append(a.name + ("" if a.labels is not None or r > 0.2 else "{%s}" % pick(rng, AXUNITS[a.unit])))
        elif r < 0.8:
            args.append("%s[%d]" % (a.name, int(rng.integers(min(len(f.ax(a.name).full) for f in flds)))))
        elif r < 0.9 and len(flds[0].axes) > 1 and kind == "field":
            args.append(a.name + "=" + pick(rng, ["max", "sum", "mean"]))
        else:
            args.append(a.name)
    u, k = field_unit(rng, flds[0])
    kw = {"unit": u} if u != "SI" and kind != "phase" else {}
    if kind == "phase" and chance(rng, 0.4):
        kw = {"unit": "°"}
    for f in flds:
        case.log(f)
    Ds = [case.lib(f.build) for f in flds]
    if check(case, Ds, flds, shuffled(rng, args), kind, kw):
        case.sig(nobj, kind, [a.cls() for a in flds[0].axes], sorted(t.strip("0123456789") for t in args), order, u == "SI")


def orders(case):
    fields(case, order=True)


def shared(case):
    """All objects on the very same axes, with symmetries: each object is returned as its own request"""
    rng = case.rng
    nobj = int(rng.integers(1, 5))
    base = any_field(rng, syms=pick(rng, [None, "any"]), naxes=int(rng.integers(1, 4)), kind="f", comp=0.15, one=0.0)
    for a in base.axes:
        if a.is_step:
            return
    flds = [base] + [Fld(base.axes, values_for(rng, base.axes, "f"), symbol=pick(rng, ["B", "F"]), unit=base.unit) for _ in range(nobj - 1)]
    if chance(rng, 0.2):
        for f in flds:
            f.norms = {"ref": lambda: Norm_ref(ref=4.0)}
    reqs = [make_req(rng, a, ["whole", "whole", "idx", "range", "interval"]) for a in base.axes if chance(rng, 0.9)]
    if any(r.kind == "take" and len(r.idx) == 0 for r in reqs):
        return
    kind = pick(rng, ["field", "field", "magnitude"])
    kw = {}
    k = 1.0
    if base.norms and chance(rng, 0.6):
        kw["is_norm"] = True
        k = 0.25
    else:
        u, k = field_unit(rng, base)
        kw["unit"] = u
    args = shuffled(rng, [r.text for r in reqs])
    if not args:
        return
    Ds = [case.lib(f.build) for f in flds]
    case.log(base)
    case.log(KINDS[kind][0], args, kw, nobj)
    res = case.lib(getattr(Ds[0], KINDS[kind][0]), *args, **({"data_list": Ds[1:]} if nobj > 1 or chance(rng, 0.5) else {}), **kw)
    for j, f in enumerate(flds):
        v, coords = extract(f, reqs)
        if kind == "magnitude":
            v = np.abs(v)
        key = f.symbol if j == 0 else "%s_%d" % (f.symbol, j - 1)
        case.true(key in res, "one result per object", keys=sorted(res))
        case.eq(np.squeeze(np.asarray(res[key])), np.squeeze(v * k), "object %d" % j)
    for r in reqs:
        case.eq(np.atleast_1d(res[r.name]), coords[r.name], "axis %s" % r.name)
    case.sig(nobj, kind, base.cls(), sorted(t[:8] for t in args), sorted(kw))


def spectra(case):
    """Spectra of signals of different durations and samplings"""
    rng = case.rng
    nobj = int(rng.integers(1, 4))
    both = chance(rng, 0.4)
    names = ["time", "angle"] if both else [pick(rng, ["time", "angle"])]
    flds = []
    for j in range(nobj):
        axes = []
        for n in names:
            m = int(2 * rng.integers(4, 10))
            step = (2 * np.pi if n == "angle" else pick(rng, [0.8, 1.0, 1.6])) / m
            s = pick(rng, [None, None, "period", "antiperiod"])
            if n == "angle":
                s = None
            a = (lin_axis if chance(rng, 0.5) else axis_1d)(rng, n, m, 0.0, step=step)
            if s:
                a.sym, a.n = s, 2
            axes.append(a)
        flds.append(Fld(axes, values_for(rng, axes, "f"), symbol=pick(rng, ["B", "F"]), unit="T"))
    args = [TR[n] for n in names]
    if names == ["time"] and chance(rng, 0.3):
        args = ["freqs{kHz}"]
    kind = pick(rng, ["field", "magnitude", "magnitude", "phase"])
    kw = {}
    if chance(rng, 0.4):
        kw["unit"] = "°" if kind == "phase" else "mT"
    for f in flds:
        case.log(f)
    Ds = [case.lib(f.build) for f in flds]
    if nobj == 1:
        res = case.lib(getattr(Ds[0], KINDS[kind][0]), *args, **kw)
        own = case.lib(getattr(Ds[0], KINDS[kind][1]), *args, **kw)
        for n in args:
            n = n.split("{")[0]
            case.eq(res[n], own[n], "plain request")
        case.eq(res[flds[0].symbol], own[flds[0].symbol], "plain request")
        case.sig(1, kind, flds[0].cls(), args)
        return
    if check(case, Ds, flds, shuffled(rng, args), kind, kw):
        case.sig(nobj, kind, flds[0].cls(), args)


SCENARIOS = [
    ("fields", fields, 1600, 20000),
    ("orders", orders, 800, 10000),
    ("shared", shared, 1000, 12000),
    ("spectra", spectra, 600, 8000),
]
