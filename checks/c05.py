"""C05: reductions along axes"""
import itertools

import numpy as np

from checks.common import field_unit, shuffled
from mon.gen import AXUNITS, Fld, any_field, chance, pick, ratio, values_for
from mon.ref import dft_space, dft_time, extract, make_req, reduce

RULE = (
    "random field (1-4 axes; plain, periodic, antiperiodic or pattern; regular or irregular; NaN samples) with a random "
    "reduction on a random subset of axes and extraction, units or Fourier components on the others, written in every "
    "order; distinct = classes of the reduced axes x reductions x kind of request"
)
OPS = ["max", "min", "sum", "rss", "mean", "rms", "integrate"]
ARITH = ["max", "min", "sum", "rss", "mean", "rms"]


def ops_for(a):
    if a.is_phys and a.sym in ("period", "antiperiod") and (not a.uniform or len(a.stored) == 1):
        # the length of the interval closing an irregular period is a convention
        return ["max", "min", "sum"]
    if not a.is_phys or len(a.full) == 1:
        return ARITH
    return OPS


def span(a):
    return 1.0 if a.labels is not None else max(1.0, abs(a.full[-1] - a.full[0]) * 2) * max(1, len(a.full))


def build_request(rng, fld, v, ops=None, pred=0.6, extr=True, punit=0.25):
    """Random reductions on some axes, extraction on the others. Returns args, reference, description"""
    args, sig, red = [], [], []
    tol = float(np.nanmax(np.abs(v)))
    reqs = []
    chosen = [a for a in fld.axes if chance(rng, pred)] or [pick(rng, fld.axes)]
    for i, a in enumerate(fld.axes):
        if a in chosen:
            op = pick(rng, [o for o in ops_for(a) if ops is None or o in ops])
            unit, scale = None, 1.0
            if a.labels is None and chance(rng, punit):
                unit = pick(rng, AXUNITS[a.unit])
                scale = ratio(a.unit, unit)
            args.append("%s=%s%s" % (a.name, op, "" if unit is None else "{%s}" % unit))
            sig.append("%s:%s" % (a.cls(), op))
            red.append((i, a, op, scale))
            if op in ("integrate", "rss"):
                tol *= span(a) * max(1.0, scale)
            elif op in ("sum",):
                tol *= len(a.full)
        elif extr and chance(rng, 0.8):
            r = make_req(rng, a, ["whole", "idx", "list", "range"] + ([] if a.is_step else ["interval"]))
            reqs.append(r)
            args.append(r.text)
    keep = reqs + [_All(a) for i, a, op, s in red]
    v, coords = extract(fld, keep, values=v)
    for i, a, op, scale in red:
        x = None if a.labels is not None else a.full * scale
        v = reduce(v, x, i, op, a.is_phys, closing=a.sym != "pattern")
    return args, v, sig, reqs, coords, red, tol


class _All(object):
    kind = "take"
    scale = 1.0

    def __init__(self, a):
        self.name = a.name
        self.idx = list(range(len(a.full)))


def compare(case, fld, res, v, k, reqs, coords, red, tol, args):
    case.eq(res[fld.symbol], v * k, "reduction %s" % args, rtol=1e-9, atol=1e-11 * tol * abs(k))
    for r in reqs:
        case.eq(np.atleast_1d(res[r.name]), coords[r.name], "axis %s" % r.name)
    for i, a, op, s in red:
        case.same(res[a.name], op, "label of the reduced axis %s" % a.name)


def reductions(case):
    rng = case.rng
    fld = any_field(rng, syms=pick(rng, [None, None, "any"]), kind=pick(rng, ["f", "f", "f", "i"]))
    case.log(fld)
    D = case.lib(fld.build)
    for _ in range(2):
        args, v, sig, reqs, coords, red, tol = build_request(rng, fld, fld.full)
        u, k = field_unit(rng, fld)
        args = shuffled(rng, args)
        case.log("get_along", args, u)
        res = case.lib(D.get_along, *args, unit=u, is_squeeze=False)
        compare(case, fld, res, v, k, reqs, coords, red, tol, args)
        case.sig(sorted(sig), len(fld.axes))


def missing(case):
    """NaN samples are ignored by maximum, minimum, sum and arithmetic mean"""
    rng = case.rng
    fld = any_field(rng, kind="f", comp=0.2)
    v = fld.values
    mask = rng.random(v.shape) < 0.2
    if mask.all():
        return
    v = v.copy()
    v[mask] = np.nan
    fld.values = v
    a = pick(rng, fld.axes)
    ops = ["max", "min", "sum"] + ([] if a.is_phys and len(a.full) > 1 else ["mean"])
    op = pick(rng, ops)
    i = fld.index(a.name)
    args = ["%s=%s" % (b.name, op) if b is a else b.name for b in fld.axes]
    case.log(fld)
    case.log("NaN", int(mask.sum()), args)
    D = case.lib(fld.build)
    with np.errstate(all="ignore"):
        exp = reduce(fld.full, None, i, op, False)
    res = case.lib(D.get_along, *shuffled(rng, args), is_squeeze=False)
    case.eq(res[fld.symbol], exp, "reduction ignoring missing samples")
    case.sig(a.cls(), op, i, len(fld.axes))


def orders(case):
    """The order in which the axes are written does not matter"""
    rng = case.rng
    fld = any_field(rng, syms=pick(rng, [None, "any"]), naxes=int(rng.integers(2, 4)), kind="f", comp=0)
    case.log(fld)
    D = case.lib(fld.build)
    args, v, sig, reqs, coords, red, tol = build_request(rng, fld, fld.full, extr=True, pred=0.8)
    ref = None
    for p in itertools.permutations(args):
        res = np.asarray(case.lib(D.get_along, *p, is_squeeze=False)[fld.symbol])
        if ref is None:
            ref = res
            case.log(p)
            case.eq(res, v, "reduction %s" % (p,), atol=1e-11 * tol)
        else:
            case.exact(res, ref, "reduction written %s instead of %s" % (p, args))
    case.sig(sorted(sig), len(args))


def magnitude(case):
    """For magnitudes the magnitude is taken before reducing"""
    rng = case.rng
    fld = any_field(rng, syms=pick(rng, [None, "any"]), kind=pick(rng, ["f", "c"]))
    case.log(fld)
    D = case.lib(fld.build)
    args, v, sig, reqs, coords, red, tol = build_request(rng, fld, np.abs(fld.full))
    args = shuffled(rng, args)
    u, k = field_unit(rng, fld)
    case.log("get_magnitude_along", args, u)
    res = case.lib(D.get_magnitude_along, *args, unit=u, is_squeeze=False)
    compare(case, fld, res, v, k, reqs, coords, red, tol, args)
    case.sig(sorted(sig), len(fld.axes), fld.values.dtype.kind)


def fourier_case(rng):
    """Field with time and/or angle transformed (reference spectrum along these axes)"""
    names = pick(rng, [["time"], ["angle"], ["time", "angle"]])
    names = names + pick(rng, [[], ["z"], ["speed"], ["z", "load"]])
    names = shuffled(rng, names)
    from mon.gen import any_axis

    axes = []
    for nm in names:
        s = None
        if nm in ("time", "angle"):
            s = pick(rng, [None, "period", "antiperiod"])
            axes.append(any_axis(rng, nm, sym=s, uniform=True, start=0.0, n=int(rng.integers(2, 9))))
        else:
            axes.append(any_axis(rng, nm, sym=None))
    fld = Fld(axes, values_for(rng, axes, "f"), unit=pick(rng, ["T", "A", "V"]))
    # at least one transformed axis
    ft = [n for n in names if n in ("time", "angle") and chance(rng, 0.75)]
    if not ft:
        ft = [n for n in names if n in ("time", "angle")][:1]
    v = fld.values
    lines = {}
    for i, a in enumerate(axes):
        if a.name not in ft:
            v = a.expand(v, i)
            continue
        x = a.stored
        n = 1
        if a.sym == "antiperiod":
            v = np.concatenate([v, -v], axis=i)
            x = a.full[: 2 * len(a.stored)]
            n = a.n // 2
        elif a.sym == "period":
            n = a.n
        if a.name == "angle":
            v, f = dft_space(v, x, i, n)
            lines["wavenumber"] = f
    for i, a in enumerate(axes):
        if a.name == "time" and "time" in ft:
            # after the space transform the data are complex: same sum, by linearity
            x = a.full[: v.shape[i]]
            v, f = dft_time(v, x, i)
            lines["freqs"] = f
    return fld, ft, v, lines


def fourier(case):
    """Reductions of Fourier components"""
    rng = case.rng
    fld, ft, v, lines = fourier_case(rng)
    case.log(fld)
    D = case.lib(fld.build)
    mag = chance(rng, 0.6)
    if mag:
        v = np.abs(v)
    tr = {"time": "freqs", "angle": "wavenumber"}
    args, sig = [], []
    tol = float(np.max(np.abs(fld.full)))
    one = pick(rng, fld.names())
    for i, a in enumerate(fld.axes):
        ops = ["sum", "mean"] if not mag else ARITH
        isft = a.name in ft
        nm = tr[a.name] if isft else a.name
        if isft or not a.is_phys or len(a.full) == 1:
            phys = False
        else:
            phys = True
            ops = ["sum", "mean", "integrate"] if not mag else OPS
            if a.sym in ("period", "antiperiod") and not a.uniform:
                ops = ["sum"]
        if a.name == one or chance(rng, 0.3):
            op = pick(rng, ops)
            x = lines[nm] if isft else a.full
            v = reduce(v, x, i, op, phys, closing=True)
            tol *= max(1.0, v.shape[i] if isft else span(a))
            args.append("%s=%s" % (nm, op))
            sig.append((a.cls(), isft, op))
        else:
            args.append(nm)
            sig.append((a.cls(), isft))
    args = shuffled(rng, args)
    case.log("get_magnitude_along" if mag else "get_along", args)
    fn = D.get_magnitude_along if mag else D.get_along
    res = case.lib(fn, *args, is_squeeze=False)
    case.eq(res[fld.symbol], v, "reduction %s" % args, rtol=1e-8, atol=1e-10 * tol)
    case.sig(mag, sorted(map(str, sig)))


def spectra(case):
    """Reductions of stored spectra"""
    rng = case.rng
    fld = any_field(rng, pool=["freqs", "wavenumber", "speed", "z"], naxes=int(rng.integers(1, 4)), kind="c", comp=0)
    if not set(fld.names()) & {"freqs", "wavenumber"}:
        fld = any_field(rng, pool=["freqs", "wavenumber"], naxes=int(rng.integers(1, 3)), kind="c", comp=0)
    case.log(fld)
    D = case.lib(fld.build)
    mag = chance(rng, 0.7)
    v = np.abs(fld.full) if mag else fld.full
    ops = None if mag else ["sum", "mean"]
    args, v, sig, reqs, coords, red, tol = build_request(rng, fld, v, ops=ops, extr=False)
    got = [a for a in fld.axes if a not in [r[1] for r in red]]
    # transformed axes have to be named, otherwise the first line is taken
    for a in got:
        args.append(a.name)
    if got:
        full = np.abs(fld.full) if mag else fld.full
        v = full
        for i, a, op, s in red:
            v = reduce(v, a.full * s, i, op, a.is_phys)
    args = shuffled(rng, args)
    fn = D.get_magnitude_along if mag else D.get_along
    case.log("magnitude" if mag else "field", args)
    res = case.lib(fn, *args, is_squeeze=False)
    case.eq(res[fld.symbol], v, "reduction %s" % args, atol=1e-11 * tol)
    case.sig(mag, sorted(sig), len(fld.axes))


SCENARIOS = [
    ("reductions", reductions, 5000, 60000),
    ("missing", missing, 1000, 12000),
    ("orders", orders, 500, 6000),
    ("magnitude", magnitude, 2400, 24000),
    ("fourier", fourier, 3000, 30000),
    ("spectra", spectra, 1200, 16000),
]
