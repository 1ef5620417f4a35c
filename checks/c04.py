"""C04: interpolation on user points"""
import numpy as np

from checks.common import field_unit, shuffled
from mon.gen import AXUNITS, any_axis, any_field, chance, pattern_axis, pick, ratio, reordered, values_for, Fld
from mon.ref import apply_matrix, extract, lerp_matrix, make_req, num, step_matrix, user_points

RULE = (
    "random field (1-4 axes, with or without symmetries, step axes) and lists of user points (samples, points between "
    "samples, points outside, unsorted, repeated, axes far from zero) given as text or as axis_data on one or several axes, mixed with "
    "plain extraction and units; distinct = axis classes x way of giving the points x kinds of points"
)


def point_req(rng, ax, m=None):
    """Points on an axis: returns text, axis_data (or None), points, unit scale"""
    unit = pick(rng, AXUNITS[ax.unit]) if chance(rng, 0.3) else None
    scale = 1.0 if unit is None else ratio(ax.unit, unit)
    kind = rng.random()
    pts = user_points(rng, ax, scale, m=m, samples=kind < 0.25)
    if unit is not None:
        # a converted sample is not reproducible to the last digit: stay clear of the jumps
        x = ax.full * scale
        if ax.is_step:
            pts = [p + 0.013 * (x.max() - x.min()) if np.min(np.abs(x - p)) < 1e-6 * abs(x.max() - x.min()) else p for p in pts]
    if chance(rng, 0.4):
        pts = sorted(pts)
    suffix = "" if unit is None else "{" + unit + "}"
    if len(pts) > 2 and chance(rng, 0.5):
        return "%s=[%s]%s" % (ax.name, ",".join(num(p) for p in pts), suffix), None, pts, scale, "list"
    data = np.array(pts) if chance(rng, 0.6) else list(pts)
    return "%s=axis_data%s" % (ax.name, suffix), data, pts, scale, "data"


def matrix(ax, pts, scale):
    x = ax.full * scale
    if ax.is_step:
        return step_matrix(x, pts)
    return lerp_matrix(x, pts)


def usable(ax):
    """Axes on which linear interpolation is defined"""
    return ax.labels is None and (ax.is_step or (len(ax.full) > 1 and (ax.sym != "pattern" or len(ax.stored) >= 1)))


def close_to_whole(ax, pts, scale):
    """Points so close to the whole axis that they are the axis (library tolerance)"""
    x = ax.full * scale
    for part in (x, ax.oneperiod * scale, ax.stored * scale):
        if len(part) == len(pts) and len(part) > 1:
            d = np.abs(np.diff(np.unique(part)))
            if np.all(np.abs(part - pts) <= 2e-3 * (np.min(d) if len(d) else 1.0)):
                return True
    return False


def run(case, fld, target, kinds=("whole", "idx", "range", "interval")):
    rng = case.rng
    D = case.lib(fld.build)
    texts, data, mats, exp_axes, ways = [], {}, {}, {}, []
    reqs = []
    for i, a in enumerate(fld.axes):
        if i in target:
            t, d, pts, scale, way = point_req(rng, a)
            while close_to_whole(a, pts, scale):
                t, d, pts, scale, way = point_req(rng, a, m=len(a.full) + 1)
            texts.append(t)
            if d is not None:
                data[a.name] = d
            mats[i] = matrix(a, pts, scale)
            exp_axes[a.name] = pts
            ways.append((a.cls(), way, len(set(pts)) < len(pts), pts == sorted(pts)))
        elif chance(rng, 0.8):
            ks = [k for k in kinds if not (a.sym and k in ("interval",) and a.is_step)]
            r = make_req(rng, a, ks)
            reqs.append(r)
            texts.append(r.text)
    v, coords = extract(Fld([a if j not in target else _whole(a) for j, a in enumerate(fld.axes)], None),
                        reqs + [_all(fld.axes[j]) for j in target], values=fld.full)
    for i, W in mats.items():
        v = apply_matrix(W, v, i)
    u, k = field_unit(rng, fld)
    texts = shuffled(rng, texts)
    case.log(fld)
    case.log("get_along", texts, "axis_data", data, "unit", u)
    kw = {"axis_data": data} if data else {}
    keep = {n: np.array(d, copy=True) for n, d in data.items()}
    res = case.lib(D.get_along, *texts, unit=u, is_squeeze=False, **kw)
    case.eq(res[fld.symbol], v * k, "interpolated field", rtol=1e-8)
    for n, pts in exp_axes.items():
        case.eq(res[n], pts, "returned axis %s" % n, rtol=1e-12)
    for n, d in keep.items():
        case.exact(np.asarray(data[n]), d, "points given by the caller")
    for r in reqs:
        case.eq(np.atleast_1d(res[r.name]), coords[r.name], "other axis %s" % r.name)
    case.sig(len(fld.axes), sorted(ways), [a.cls() for j, a in enumerate(fld.axes) if j not in target])


def _whole(a):
    return a


class _all(object):
    kind = "take"
    scale = 1.0

    def __init__(self, ax):
        self.name = ax.name
        self.idx = list(range(len(ax.full)))


def far(rng):
    """Axes may lie far from zero, many spans away"""
    return pick(rng, [None, None, None, 300.0, -20000.0])


def plain(case):
    rng = case.rng
    fld = any_field(rng, kind=pick(rng, ["f", "f", "c"]), comp=0.1, one=0.03, start=far(rng))
    ok = [i for i, a in enumerate(fld.axes) if usable(a)]
    if not ok:
        return
    n = 1 if chance(rng, 0.6) else int(rng.integers(1, len(ok) + 1))
    run(case, fld, sorted(shuffled(rng, ok)[:n]))


def falling(case):
    """Axes listed in decreasing or any order"""
    rng = case.rng
    fld = reordered(rng, any_field(rng, kind=pick(rng, ["f", "c"]), comp=0.1, one=0.03, start=far(rng)))
    ok = [i for i, a in enumerate(fld.axes) if usable(a)]
    if not ok:
        return
    run(case, fld, sorted(shuffled(rng, ok)[: int(rng.integers(1, len(ok) + 1))]))


def symmetric(case):
    rng = case.rng
    fld = any_field(rng, syms="any", pool=["time", "angle", "z"], naxes=int(rng.integers(1, 4)), kind=pick(rng, ["f", "f", "c"]), comp=0.1, one=0, start=far(rng))
    ok = [i for i, a in enumerate(fld.axes) if usable(a)]
    if not ok:
        return
    run(case, fld, sorted(shuffled(rng, ok)[: int(rng.integers(1, len(ok) + 1))]), kinds=("whole", "idx", "range"))


def step(case):
    rng = case.rng
    others = any_field(rng, pool=["time", "angle", "speed"], naxes=int(rng.integers(0, 3)), kind="f", comp=0, one=0)
    axes = list(others.axes)
    i = int(rng.integers(len(axes) + 1))
    axes.insert(i, pattern_axis(rng, "z", step=True))
    if len(axes[i].whole) > 2 and chance(rng, 0.2):
        # last segment reduced to its start
        axes[i].whole, axes[i].rebuild = axes[i].whole[:-1], axes[i].rebuild[:-1]
    off = far(rng)
    if off is not None:
        axes[i].whole = axes[i].whole + off
        axes[i].stored = axes[i].stored + off
    fld = Fld(axes, values_for(rng, axes, pick(rng, ["f", "f", "c"])), unit="T")
    if chance(rng, 0.5):
        # several points, all of them jumps or ends
        D = case.lib(fld.build)
        a = axes[i]
        m = int(rng.integers(1, 6))
        pts = [float(pick(rng, list(a.whole))) for _ in range(m)]
        if close_to_whole(a, pts, 1.0):
            pts = pts + [pts[0]]
        case.log(fld)
        case.log("z points", pts)
        names = [b.name for b in axes if b is not a]
        res = case.lib(D.get_along, *(names + ["z=axis_data"]), axis_data={"z": np.array(pts)}, is_squeeze=False)
        exp = apply_matrix(step_matrix(a.whole, pts), fld.full, i)
        case.eq(res[fld.symbol], exp, "values at jumps")
        case.eq(res["z"], pts, "returned axis")
        case.sig("jumps", len(axes), i, a.rebuild, len(set(pts)) < len(pts), pts == sorted(pts))
        return
    run(case, fld, [i])


def alone(case):
    """A single user point (nearest sample, missing outside) on axes in any order"""
    rng = case.rng
    fld = any_field(rng, syms=pick(rng, [None, "any"]), kind="f", comp=0.1, one=0.03, start=far(rng))
    if chance(rng, 0.6):
        fld = reordered(rng, fld)
    ok = [i for i, a in enumerate(fld.axes) if usable(a) and not a.is_step]
    if not ok:
        return
    i = pick(rng, ok)
    a = fld.axes[i]
    x = np.unique(a.full)
    j = int(rng.integers(len(x)))
    r = rng.random()
    if r < 0.6:
        p, w = float(x[j]), "sample"
        if j in (0, len(x) - 1) and a.lin is not None or a.sym == "period" or a.sym == "antiperiod":
            j = len(x) // 2
            p = float(x[j] - 1e-9 * (x[1] - x[0]))
    elif r < 0.85:
        j = int(rng.integers(len(x) - 1))
        p, w = float(x[j] + pick(rng, [0.2, 0.4, 0.6, 0.8]) * (x[j + 1] - x[j])), "between"
    else:
        p, w = float(pick(rng, [x[0] - 0.3 * (x[1] - x[0]), x[-1] + 0.3 * (x[-1] - x[-2])])), "outside"
    exp = np.take(fld.full, [int(np.argmin(np.abs(a.full - p)))], axis=i)
    if w == "outside":
        exp = np.full(exp.shape, np.nan)
    D = case.lib(fld.build)
    case.log(fld)
    case.log("point", a.name, p, w)
    args = shuffled(rng, [b.name + ("=axis_data" if b is a else "") for b in fld.axes])
    res = case.lib(D.get_along, *args, axis_data={a.name: np.array([p])}, is_squeeze=False)
    case.eq(res[fld.symbol], exp, "field at a single point")
    case.eq(np.atleast_1d(res[a.name]), [p], "returned axis %s" % a.name, rtol=1e-12)
    case.sig(w, a.cls(), len(fld.axes), i, bool(len(a.full) > 1 and a.full[0] > a.full[-1]))


def commute(case):
    """Interpolating along two axes in one request equals the tensor product, and points that
    are samples equal index extraction"""
    rng = case.rng
    fld = any_field(rng, naxes=int(rng.integers(2, 4)), kind="f", comp=0, one=0)
    D = case.lib(fld.build)
    idx, data, texts = [], {}, []
    for a in fld.axes:
        k = [int(i) for i in rng.integers(0, len(a.full), int(rng.integers(2, 6)))]
        idx.append(k)
        data[a.name] = case.lib(D.get_axes, a.name)[0].get_values()[k]
        texts.append(a.name + "=axis_data")
    case.log(fld)
    case.log("samples", idx)
    res = case.lib(D.get_along, *shuffled(rng, texts), axis_data=data, is_squeeze=False)
    case.exact(res[fld.symbol], fld.full[np.ix_(*idx)], "field at samples")
    case.sig([a.cls() for a in fld.axes], [k == sorted(k) for k in idx])


SCENARIOS = [
    ("plain", plain, 2100, 40000),
    ("falling", falling, 550, 10000),
    ("symmetric", symmetric, 2100, 40000),
    ("step", step, 1100, 16000),
    ("alone", alone, 550, 10000),
    ("samples", commute, 400, 8000),
]
