"""C03: symmetric storage is invisible to requests"""
import numpy as np

from checks.common import check_extraction, field_unit, shuffled
from checks.c04 import close_to_whole, matrix, point_req, usable
from mon.gen import Fld, any_axis, any_field, chance, pattern_axis, pick, values_for
from mon.ref import Req, apply_matrix, make_req, reduce

RULE = (
    "random field with period, antiperiod or pattern on any subset of time/angle/z (regular or irregular stored part, "
    "any start, single stored sample), request drawn among extraction kinds, parts ([oneperiod], [antiperiod], "
    "[smallestperiod], [pattern]), user points, reductions and Fourier components; the answer is compared with the "
    "numpy answer on the completed arrays and with the library's answer on the same data stored in full; "
    "distinct = axis classes x request kinds"
)
KINDS = ["whole", "idx", "neg", "list", "range", "val", "interval", "above", "below"]


def sym_field(rng, naxes=None, kind=None, even=False, uniform=None, start=None, comp=0.1, one=0.05, pattern=True, pool=None):
    pool = pool or ["time", "angle", "z"]
    fld = None
    while fld is None or not any(a.sym for a in fld.axes):
        fld = any_field(
            rng,
            syms="any",
            pool=pool + ["speed"],
            naxes=naxes or int(rng.integers(1, 4)),
            kind=kind,
            uniform=uniform,
            start=start,
            comp=comp,
            one=one,
        )
        if not pattern and any(a.sym == "pattern" for a in fld.axes):
            fld = None
    return fld


def part_req(rng, ax):
    """Request for a part of a symmetric axis"""
    n = len(ax.stored)
    if ax.sym == "pattern":
        if ax.is_step:
            return None
        w = pick(rng, ["pattern", "smallestperiod", "smallestpattern"])
        m = n
    elif ax.sym == "antiperiod":
        w, m = pick(rng, [("oneperiod", 2 * n), ("antiperiod", n), ("smallestperiod", n)])
    elif ax.sym == "period":
        w, m = pick(rng, [("oneperiod", n), ("smallestperiod", n)])
    elif ax.labels is None:
        w, m = pick(rng, [("oneperiod", n), ("smallestperiod", n)])
    else:
        return None
    return Req(ax.name, "take", "%s[%s]" % (ax.name, w), idx=list(range(m)), scale=1.0)


def extraction(case):
    rng = case.rng
    fld = sym_field(rng)
    case.log(fld)
    D = case.lib(fld.build)
    for _ in range(3):
        reqs = []
        for a in fld.axes:
            if chance(rng, 0.85):
                kinds = [k for k in KINDS if not (a.is_step and k in ("val",))]
                r = part_req(rng, a) if chance(rng, 0.2) else None
                reqs.append(r or make_req(rng, a, kinds))
        if not reqs:
            reqs.append(make_req(rng, fld.axes[0], ["whole"]))
        check_extraction(case, D, fld, reqs)
        case.sig(fld.cls(), sorted((r.name, r.text[: len(r.name) + 2], len(r.idx) > 1, r.unit) for r in reqs))


def odd(case):
    """Odd number of antiperiods: whole axis, samples and parts"""
    rng = case.rng
    fld = sym_field(rng, pattern=False)
    ok = [a for a in fld.axes if a.sym == "antiperiod"]
    if not ok:
        return
    for a in ok:
        a.n = int(2 * rng.integers(1, 4) + 1)
    case.log(fld)
    D = case.lib(fld.build)
    for _ in range(2):
        reqs = []
        for a in fld.axes:
            if chance(rng, 0.85):
                r = part_req(rng, a) if chance(rng, 0.2) else None
                reqs.append(r or make_req(rng, a, KINDS))
        if not reqs:
            reqs.append(make_req(rng, ok[0], ["whole"]))
        check_extraction(case, D, fld, reqs)
        case.sig(fld.cls(), [a.n for a in ok], sorted((r.name, r.text[: len(r.name) + 2], len(r.idx) > 1) for r in reqs))


def points(case):
    rng = case.rng
    fld = sym_field(rng, kind="f", one=0)
    ok = [i for i, a in enumerate(fld.axes) if usable(a) and a.sym]
    if not ok:
        return
    from checks.c04 import run

    run(case, fld, sorted(shuffled(rng, ok)[: int(rng.integers(1, len(ok) + 1))]), kinds=("whole", "idx", "range"))


OPS = ["max", "min", "sum", "rss", "mean", "rms", "integrate"]


def reductions(case):
    rng = case.rng
    fld = sym_field(rng, kind="f")
    case.log(fld)
    D = case.lib(fld.build)
    F = case.lib(fld.build_full)
    args, v, sig = [], fld.full, []
    for i, a in enumerate(fld.axes):
        if chance(rng, 0.65) or not args:
            ops = list(OPS)
            if not a.is_phys or len(a.full) == 1 or len(a.stored) == 1:
                ops = ["max", "min", "sum", "rss", "mean", "rms"]
                if a.is_phys and len(a.stored) == 1:
                    ops = ["max", "min", "sum"]
            if a.sym in ("period", "antiperiod") and not a.uniform:
                # the length of the last interval is a convention
                ops = ["max", "min", "sum"]
            op = pick(rng, ops)
            args.append("%s=%s" % (a.name, op))
            sig.append((a.cls(), op))
            x = a.full if a.labels is None else None
            v = reduce(v, x, i, op, a.is_phys, closing=a.sym != "pattern")
        else:
            args.append(a.name)
    args = shuffled(rng, args)
    case.log("get_along", args)
    res = case.lib(D.get_along, *args, is_squeeze=False)[fld.symbol]
    scale = np.max(np.abs(fld.full)) * max(1.0, np.prod([abs(a.full[-1] - a.full[0]) if a.labels is None else 1 for a in fld.axes]))
    case.eq(res, v, "reduction of %s" % args, atol=1e-9 * scale)
    case.sig(sorted(map(str, sig)))
    # the same request on the same data stored in full (patterns are only known as such)
    if all(a.sym != "pattern" for a in fld.axes):
        resf = case.lib(F.get_along, *args, is_squeeze=False)[fld.symbol]
        case.eq(res, resf, "same reduction on full storage of %s" % args, atol=1e-9 * scale)


def derivative(case):
    rng = case.rng
    fld = sym_field(rng, kind="f", pattern=False, one=0, comp=0, uniform=True)
    ok = [a for a in fld.axes if a.sym and len(a.stored) > 2]
    if not ok:
        return
    a = pick(rng, ok)
    case.log(fld)
    args = [b.name + "=derivate" if b is a else b.name for b in fld.axes]
    case.log(args)
    res = case.lib(case.lib(fld.build).get_along, *args, is_squeeze=False)
    resf = case.lib(case.lib(fld.build_full).get_along, *args, is_squeeze=False)
    i = fld.index(a.name)
    n = len(np.atleast_1d(res[a.name]))
    case.true(n >= len(a.stored), "at least the stored part is returned", n=n)
    exp = np.take(resf[fld.symbol], range(n), axis=i)
    case.eq(res[fld.symbol], exp, "derivative", rtol=1e-8)
    case.eq(res[a.name], resf[a.name][:n], "axis of the derivative")
    case.sig(a.cls(), i, len(fld.axes))


def fourier(case):
    """Components of symmetric data against the components of the completed data"""
    rng = case.rng
    n = int(rng.integers(1, 4))
    fld = sym_field(rng, naxes=n, kind="f", uniform=True, start=0.0, one=0)
    for a in fld.axes:
        if a.name in ("time", "angle") and len(a.stored) < 2:
            return
    if not set(fld.names()) & {"time", "angle"}:
        return
    D = case.lib(fld.build)
    F = case.lib(fld.build_full)
    case.log(fld)
    args, tr = [], {}
    for a in fld.axes:
        if a.name == "time" and (chance(rng, 0.7)):
            args.append("freqs")
            tr["freqs"] = a
        elif a.name == "angle" and (chance(rng, 0.7)):
            args.append("wavenumber")
            tr["wavenumber"] = a
        else:
            args.append(a.name)
    if not tr:
        return
    args = shuffled(rng, args)
    case.log("get_along", args)
    res = case.lib(D.get_along, *args, is_squeeze=False)
    full = case.lib(F.get_along, *args, is_squeeze=False)
    g, e = np.asarray(res[fld.symbol]), np.asarray(full[fld.symbol])
    scale = np.max(np.abs(fld.full))
    for i, a in enumerate(fld.axes):
        nm = {"time": "freqs", "angle": "wavenumber"}.get(a.name)
        if nm not in tr:
            if a.name in res:
                case.eq(np.atleast_1d(res[a.name]), np.atleast_1d(full[a.name]), "axis " + a.name)
            continue
        lines, flines = np.asarray(res[nm], dtype=float), np.asarray(full[nm], dtype=float)
        tol = 1e-6 * (flines.max() - flines.min() + 1)
        pos = []
        for x in lines:
            k = int(np.argmin(np.abs(flines - x)))
            if abs(flines[k] - x) > tol:
                case.fail("line %s=%r does not exist in the spectrum of the full data" % (nm, x), lines=lines, full=flines)
            pos.append(k)
        other = sorted(set(range(len(flines))) - set(pos))
        case.true(len(set(pos)) == len(pos), "lines are distinct", lines=lines)
        rest = np.take(e, other, axis=i)
        case.true(rest.size == 0 or np.max(np.abs(rest)) <= 1e-9 * scale, "lines left out are zero in the full data", axis=nm, lines=lines, rest=rest)
        e = np.take(e, pos, axis=i)
    case.eq(g, e, "components", atol=1e-9 * scale)
    res = case.lib(D.get_along, *fld.names(), is_squeeze=False)
    case.eq(res[fld.symbol], fld.full, "whole field after the components")
    case.sig(fld.cls(), sorted(args))


def parts_errors(case):
    """Parts that do not exist are refused"""
    rng = case.rng
    a = any_axis(rng, pick(rng, ["time", "angle", "z"]), sym=pick(rng, [None, "period"]), one=0)
    fld = Fld([a], values_for(rng, [a], "f"))
    case.log(fld)
    D = case.lib(fld.build)
    w = pick(rng, ["pattern", "antiperiod"])
    case.raises("%s of an axis without it" % w, D.get_along, "%s[%s]" % (a.name, w))
    case.sig(a.cls(), w)


SCENARIOS = [
    ("extraction", extraction, 3500, 39000),
    ("odd", odd, 700, 7800),
    ("points", points, 1400, 19500),
    ("reductions", reductions, 1700, 19500),
    ("derivative", derivative, 550, 6500),
    ("fourier", fourier, 1700, 19500),
    ("parts_errors", parts_errors, 84, 400),
]
