"""C06: derivative, antiderivative and local integral"""
import numpy as np

from checks.common import field_unit, shuffled
from checks.c05 import _All, fourier_case
from mon.gen import AXUNITS, Fld, any_axis, any_field, chance, pattern_axis, pick, ratio, values_for
from mon.ref import extract, make_req, reduce

RULE = (
    "random field with one regular time, angle or z axis (plain, periodic or antiperiodic, any start, any position among "
    "the axes) differentiated or antidifferentiated, or a frequency axis (stored or obtained from time), or z axis "
    "locally integrated (plain, pattern, step), with extraction, reductions and units on the other axes; "
    "distinct = axis class x operation x position x requests on the other axes"
)


def one_axis(rng, name, sym, minn=3):
    return any_axis(rng, name, sym=sym, uniform=True, n=int(rng.integers(minn, 10)))


def make_field(rng, ax, kind=None, extra=None):
    pool = [n for n in ["time", "angle", "z", "speed", "load"] if n != ax.name]
    k = int(rng.integers(0, 3)) if extra is None else extra
    axes = []
    for nm in shuffled(rng, pool)[:k]:
        s = pick(rng, [None, None, "period", "antiperiod"]) if nm in ("time", "angle", "z") else None
        axes.append(any_axis(rng, nm, sym=s))
    i = int(rng.integers(len(axes) + 1))
    axes.insert(i, ax)
    return Fld(axes, values_for(rng, axes, kind or pick(rng, ["f", "f", "c"])), unit=pick(rng, ["T", "A", "V"])), i


def stored_along(fld, i):
    """Full values, except along axis i kept as stored"""
    v = fld.values
    for j, a in enumerate(fld.axes):
        if j != i:
            v = a.expand(v, j)
    return v


def derivative(v, h, axis, sign):
    v = np.moveaxis(v, axis, 0)
    nxt = np.concatenate([v[1:], sign * v[:1]])
    prv = np.concatenate([sign * v[-1:], v[:-1]])
    return np.moveaxis((nxt - prv) / (2 * h), 0, axis)


def primitive(v, h, axis, sign):
    """Zero-mean primitive of the continued samples"""
    v = np.moveaxis(v, axis, 0)
    nxt = np.concatenate([v[1:], sign * v[:1]])
    c = np.cumsum(0.5 * h * (v + nxt), axis=0)
    F = np.concatenate([np.zeros_like(c[:1]), c[:-1]])
    if sign < 0:
        # the mean over the antiperiodic continuation is zero
        F = F - c[-1:] / 2
    else:
        F = F - F.mean(axis=0)
    return np.moveaxis(F, 0, axis)


def others(rng, fld, i, v, reduce_p=0.25):
    """Requests on the other axes applied to v"""
    args, sig, reqs, red = [], [], [], []
    for j, a in enumerate(fld.axes):
        if j == i:
            continue
        # reductions are applied in the order of the axes: keep them linear
        if chance(rng, reduce_p) and a.sym is None:
            op = pick(rng, ["sum", "mean"])
            if op == "mean" and a.is_phys and len(a.full) > 1 and not a.uniform:
                op = "sum"
            args.append("%s=%s" % (a.name, op))
            red.append((j, a, op))
            sig.append(op)
        elif chance(rng, 0.85):
            r = make_req(rng, a, ["whole", "idx", "list", "range", "interval"])
            reqs.append(r)
            args.append(r.text)
            sig.append(r.text[: len(r.name) + 1])
    keep = reqs + [_All(a) for j, a, op in red]

    class Whole(object):
        kind = "take"
        scale = 1.0
        name = fld.axes[i].name
        idx = list(range(v.shape[i]))

    class F(object):
        axes = [a if j != i else _Stub(a, v.shape[i]) for j, a in enumerate(fld.axes)]
        full = v

    w, coords = extract(F, keep + [Whole], values=v)
    for j, a, op in red:
        w = reduce(w, a.full if a.labels is None else None, j, op, a.is_phys)
    return args, w, coords, reqs, sig


class _Stub(object):
    labels = None

    def __init__(self, a, n):
        self.name = a.name
        self.full = np.zeros(n)


def phys(case):
    rng = case.rng
    name = ["time", "angle", "z"][case.index % 3]
    sym = [None, "period", "antiperiod"][(case.index // 3) % 3]
    op = ["derivate", "antiderivate"][(case.index // 9) % 2]
    ax = one_axis(rng, name, sym)
    fld, i = make_field(rng, ax)
    v = stored_along(fld, i)
    if op == "antiderivate" and sym != "antiperiod":
        v0 = v - v.mean(axis=i, keepdims=True)
        fld.values = fld.values - fld.values.mean(axis=i, keepdims=True)
        v = v0
    unit, scale = None, 1.0
    if chance(rng, 0.3):
        unit = pick(rng, AXUNITS[ax.unit])
        scale = ratio(ax.unit, unit)
    h = (ax.stored[1] - ax.stored[0]) * scale
    sign = -1 if sym == "antiperiod" else 1
    w = derivative(v, h, i, sign) if op == "derivate" else primitive(v, h, i, sign)
    scl = np.max(np.abs(v)) * (2 / h if op == "derivate" else h * len(ax.stored))
    args, w, coords, reqs, sig = others(rng, fld, i, w)
    args = shuffled(rng, args + ["%s=%s%s" % (name, op, "" if unit is None else "{%s}" % unit)])
    u, k = field_unit(rng, fld)
    D = case.lib(fld.build)
    case.log(fld)
    case.log("get_along", args, u)
    res = case.lib(D.get_along, *args, unit=u, is_squeeze=False)
    n = int(np.prod([len(a.full) for a in fld.axes]))
    case.eq(res[fld.symbol], w * k, "%s along %s" % (op, name), rtol=1e-9, atol=1e-12 * scl * abs(k) * n)
    case.eq(res[name], ax.stored * scale, "axis %s" % name)
    for r in reqs:
        case.eq(np.atleast_1d(res[r.name]), coords[r.name], "axis %s" % r.name)
    case.sig(ax.cls(), op, i, len(fld.axes), sorted(sig), unit is not None)


def freqs(case):
    """Along a frequency axis: product or quotient by i times the angular frequency"""
    rng = case.rng
    nm = "freqs"
    op = pick(rng, ["derivate", "antiderivate"])
    if chance(rng, 0.5):
        fld, ft, v, lines = fourier_case(rng)
        if "freqs" not in lines:
            return
        i = fld.index("time")
        f = lines["freqs"]
        args = []
        for a in fld.axes:
            if a.name == "time":
                args.append("freqs=" + op)
            elif a.name in ft:
                args.append("wavenumber")
            else:
                args.append(a.name)
        src = "fft"
    else:
        nm = pick(rng, ["freqs", "freqs", "frequency"])
        ax = any_axis(rng, nm, n=int(rng.integers(2, 9)), start=pick(rng, [0.0, None]))
        pool = [any_axis(rng, n) for n in shuffled(rng, ["wavenumber", "z", "speed"])[: int(rng.integers(0, 3))]]
        i = int(rng.integers(len(pool) + 1))
        pool.insert(i, ax)
        fld = Fld(pool, values_for(rng, pool, "c"), unit="T")
        v, f = fld.full, ax.full
        args = [a.name + ("=" + op if a is ax else "") for a in pool]
        src = "stored"
    w = 2j * np.pi * f.reshape([-1 if j == i else 1 for j in range(v.ndim)])
    nz = [j for j in range(len(f)) if f[j] != 0]
    if not nz:
        return
    D = case.lib(fld.build)
    args = shuffled(rng, args)
    case.log(fld)
    case.log("get_along", args)
    with np.errstate(all="ignore"):
        res = case.lib(D.get_along, *args, is_squeeze=False)
        exp = v * w if op == "derivate" else v / w
    got = np.asarray(res[fld.symbol])
    case.true(got.shape == exp.shape, "shape", got=got.shape, expected=exp.shape)
    if op == "antiderivate":
        got, exp = np.take(got, nz, axis=i), np.take(exp, nz, axis=i)
    case.eq(got, exp, "%s along freqs" % op, rtol=1e-8, atol=1e-10 * np.max(np.abs(fld.values)))
    case.eq(res[nm], f, "frequencies")
    case.sig(src, op, i, fld.cls())


def local_z(case):
    """Local integral along z: trapezoid of every segment at its middle"""
    rng = case.rng
    w = pick(rng, ["plain", "irregular", "pattern", "step"])
    if w in ("pattern", "step"):
        ax = pattern_axis(rng, "z", step=w == "step")
        if len(ax.full) < 2:
            return
    else:
        ax = any_axis(rng, "z", n=int(rng.integers(2, 9)), uniform=w == "plain")
    if ax.kind in ("1d", "pat") and chance(rng, 0.2):
        # micrometres
        k = pick(rng, [1e-6, 1e-4])
        ax.stored = ax.stored * k
        if ax.kind == "pat":
            ax.whole = ax.whole * k
    if ax.kind == "1d" and chance(rng, 0.25):
        # listed downwards
        ax.stored = ax.stored[::-1].copy()
    fld, i = make_field(rng, ax)
    v = fld.full
    x = ax.full
    d = np.diff(x)
    seg = np.where(d != 0)[0]
    m = np.moveaxis(v, i, 0)
    s = [0.5 * (m[j] + m[j + 1]) * d[j] for j in seg]
    exp = np.moveaxis(np.array(s), 0, i)
    mid = np.array([0.5 * (x[j] + x[j + 1]) for j in seg])
    args, exp, coords, reqs, sig = others(rng, fld, i, exp, reduce_p=0)
    D = case.lib(fld.build)
    args = shuffled(rng, args + ["z=integrate_local"])
    case.log(fld)
    case.log("get_along", args)
    res = case.lib(D.get_along, *args, is_squeeze=False)
    case.eq(res[fld.symbol], exp, "local integral", rtol=1e-9, atol=1e-12 * np.max(np.abs(v)) * np.max(np.abs(d)))
    case.eq(res["z"], mid, "middle of the segments")
    case.sig(w, ax.cls(), i, len(fld.axes), sorted(sig))


def local_other(case):
    """Local integral along time or angle: each sample receives half of the segments on both sides"""
    rng = case.rng
    sym = pick(rng, [None, None, "period", "antiperiod"])
    ax = one_axis(rng, pick(rng, ["time", "angle"]), sym)
    fld, i = make_field(rng, ax)
    if sym != "antiperiod":
        fld.values = fld.values - fld.values.mean(axis=i, keepdims=True)
    v = stored_along(fld, i)
    h = ax.stored[1] - ax.stored[0]
    m = np.moveaxis(v, i, 0)
    s = 0.25 * h * (m[1:] + m[:-1])
    z = np.zeros_like(s[:1])
    exp = np.moveaxis(np.concatenate([s, z]) + np.concatenate([z, s]), 0, i)
    args, exp, coords, reqs, sig = others(rng, fld, i, exp, reduce_p=0)
    D = case.lib(fld.build)
    args = shuffled(rng, args + [ax.name + "=integrate_local"])
    case.log(fld)
    case.log("get_along", args)
    res = case.lib(D.get_along, *args, is_squeeze=False)
    case.eq(res[fld.symbol], exp, "local integral along " + ax.name, rtol=1e-9, atol=1e-11 * np.max(np.abs(v)) * h * len(ax.stored))
    case.eq(res[ax.name], ax.stored, "axis " + ax.name)
    case.sig(ax.cls(), i, len(fld.axes), sorted(sig))


def linear(case):
    """Linearity, and mutual consistency of both operations"""
    rng = case.rng
    name = pick(rng, ["time", "angle", "z"])
    sym = pick(rng, [None, "period", "antiperiod"])
    ax = one_axis(rng, name, sym, minn=4)
    fld, i = make_field(rng, ax, kind="f")
    if sym != "antiperiod":
        fld.values = fld.values - fld.values.mean(axis=i, keepdims=True)
    f2 = Fld(fld.axes, values_for(rng, fld.axes, "f"), unit=fld.unit)
    if sym != "antiperiod":
        f2.values = f2.values - f2.values.mean(axis=i, keepdims=True)
    al, be = rng.standard_normal(2)
    comb = Fld(fld.axes, al * fld.values + be * f2.values, unit=fld.unit)
    op = pick(rng, ["derivate", "antiderivate"])
    args = [a.name + ("=" + op if a is ax else "") for a in fld.axes]
    case.log(fld, args)
    r = [np.asarray(case.lib(case.lib(f.build).get_along, *args, is_squeeze=False)[f.symbol]) for f in (fld, f2, comb)]
    case.eq(r[2], al * r[0] + be * r[1], "linearity of " + op, atol=1e-9 * (np.max(np.abs(r[0])) + np.max(np.abs(r[1]))))
    # d(primitive) is the field smoothed over two intervals
    args = [a.name + ("=antiderivate" if a is ax else ("[smallestperiod]" if a.labels is None else "")) for a in fld.axes]
    prim = np.asarray(case.lib(case.lib(fld.build).get_along, *args, is_squeeze=False)[fld.symbol])
    P = Fld(fld.axes, prim, unit=fld.unit)
    args = [a.name + ("=derivate" if a is ax else ("[smallestperiod]" if a.labels is None else "")) for a in fld.axes]
    back = np.asarray(case.lib(case.lib(P.build).get_along, *args, is_squeeze=False)[P.symbol])
    sg = -1 if sym == "antiperiod" else 1
    v = np.moveaxis(fld.values, i, 0)
    sm = (np.concatenate([v[1:], sg * v[:1]]) + 2 * v + np.concatenate([sg * v[-1:], v[:-1]])) / 4
    case.eq(back, np.moveaxis(sm, 0, i), "derivative of the primitive", atol=1e-9 * np.max(np.abs(v)))
    case.sig(ax.cls(), i, len(fld.axes), op)


SCENARIOS = [
    ("phys", phys, 3000, 54000),
    ("freqs", freqs, 1600, 24000),
    ("local_z", local_z, 1200, 18000),
    ("local_other", local_other, 800, 12000),
    ("linear", linear, 600, 12000),
]
