"""Reference answers, computed with plain numpy on full arrays."""
import numpy as np

from .gen import AXUNITS, chance, pick, ratio, rnd


class Req(object):
    """One part of a request: its text and its reference meaning"""

    def __init__(self, name, kind, text, **kw):
        self.name = name
        self.kind = kind
        self.text = text
        self.__dict__.update(kw)
        self.unit = kw.get("unit")

    def __repr__(self):
        return self.text


def num(x):
    return repr(float(x))


def make_req(rng, ax, kinds, unit_p=0.3):
    """Random request part on an axis, among kinds, together with its meaning on the full axis"""
    x = ax.full
    n = len(x)
    kind = pick(rng, kinds)
    if ax.labels is not None and kind not in ("whole", "idx", "neg", "list", "range", "all"):
        kind = pick(rng, ["whole", "idx", "list", "range", "all"])
    unit = None
    if ax.labels is None and chance(rng, unit_p):
        unit = pick(rng, AXUNITS.get(ax.unit, [ax.unit]))
    scale = 1.0 if unit is None else ratio(ax.unit, unit)
    suffix = "" if unit is None else "{" + unit + "}"
    nm = ax.name
    kw = dict(unit=unit, scale=scale)
    if n == 1 and kind in ("interval", "above", "below", "val", "range", "list"):
        kind = pick(rng, ["whole", "idx"])
    if kind == "whole":
        return Req(nm, "take", nm + suffix, idx=list(range(n)), **kw)
    if kind == "all":
        if ax.labels is None:
            return Req(nm, "take", nm + suffix, idx=list(range(n)), **kw)
        return Req(nm, "take", nm + "[]", idx=list(range(n)), **kw)
    if kind == "idx":
        i = int(rng.integers(n))
        return Req(nm, "take", "%s[%d]%s" % (nm, i, suffix), idx=[i], **kw)
    if kind == "neg":
        i = -int(rng.integers(1, n + 1))
        return Req(nm, "take", "%s[%d]%s" % (nm, i, suffix), idx=[n + i], **kw)
    if kind == "list":
        m = int(rng.integers(2, n + 1))
        idx = [int(i) for i in rng.permutation(n)[:m]]
        if chance(rng, 0.5):
            idx.sort()
        return Req(nm, "take", "%s[%s]%s" % (nm, ",".join(map(str, idx)), suffix), idx=idx, **kw)
    if kind == "range":
        i = int(rng.integers(0, n))
        j = int(rng.integers(i + 1, n + 1))
        return Req(nm, "take", "%s[%d:%d]%s" % (nm, i, j, suffix), idx=list(range(i, j)), **kw)
    xs = x * scale
    order = np.sort(np.unique(xs))
    gaps = np.diff(order)
    if kind in ("interval", "above", "below"):
        # bounds between samples, or exactly on a sample in the stored unit
        def bound(k, low):
            """value just below sample k (low) or just above it"""
            if unit is None and chance(rng, 0.4):
                if ax.lin is None and ax.sym in (None, "pattern"):
                    return order[k]
                if low:
                    return order[k] - 1e-7 * gaps[max(k - 1, 0)]
                return order[k] + 1e-7 * gaps[min(k, len(gaps) - 1)]
            f = 0.2 + 0.6 * rng.random()
            if low:
                return order[k] - f * (gaps[k - 1] if k > 0 else gaps[0])
            return order[k] + f * (gaps[k] if k < len(gaps) else gaps[-1])

        i = int(rng.integers(0, len(order)))
        j = int(rng.integers(i, len(order)))
        lo, hi = bound(i, True), bound(j, False)
        if kind == "interval" and len(order) > 1:
            sel = [k for k in range(n) if lo <= xs[k] <= hi]
            return Req(nm, "take", "%s=[%s,%s]%s" % (nm, num(lo), num(hi), suffix), idx=sel, **kw)
        if kind == "above":
            sel = [k for k in range(n) if xs[k] >= lo]
            return Req(nm, "take", "%s>%s%s" % (nm, num(lo), suffix), idx=sel, **kw)
        sel = [k for k in range(n) if xs[k] <= hi]
        return Req(nm, "take", "%s<%s%s" % (nm, num(hi), suffix), idx=sel, **kw)
    if kind == "val":
        k = int(rng.integers(n))
        v = xs[k]
        listed = unit is None and ax.lin is None and ax.sym in (None, "pattern")
        inner = order[0] < v < order[-1]
        if not ((listed or inner) and chance(rng, 0.4)):
            # strictly inside the axis range, clearly closer to sample k
            g = np.min(np.abs(np.delete(xs, k) - xs[k]))
            v = xs[k] + (rng.random() - 0.5) * 0.8 * g
            v = min(max(v, order[0] + 1e-6 * gaps[0]), order[-1] - 1e-6 * gaps[-1])
        return Req(nm, "nearest", "%s=%s%s" % (nm, num(v), suffix), idx=[k], value=float(v), **kw)
    if kind == "out":
        v = order[-1] + (1 + rng.random()) * (gaps[-1] if len(gaps) else 1.0)
        if chance(rng, 0.5):
            v = order[0] - (1 + rng.random()) * (gaps[0] if len(gaps) else 1.0)
        return Req(nm, "missing", "%s=%s%s" % (nm, num(v), suffix), idx=[0], value=float(v), **kw)
    raise ValueError(kind)


def extract(fld, reqs, values=None):
    """Reference extraction: values (all axes kept) and coordinates of each requested axis"""
    v = fld.full if values is None else values
    coords = {}
    byname = {r.name: r for r in reqs}
    for i, a in enumerate(fld.axes):
        r = byname.get(a.name)
        if r is None:
            v = np.take(v, [0], axis=i)
            continue
        v = np.take(v, r.idx, axis=i)
        if r.kind == "missing":
            v = np.full(v.shape, np.nan, dtype=v.dtype)
            coords[a.name] = None
        elif a.labels is not None:
            coords[a.name] = [a.labels[k] for k in r.idx]
        else:
            coords[a.name] = a.full[r.idx] * r.scale
    return v, coords


# --------------------------------------------------------------- reductions
def closed(x, v, axis, closing=True):
    """Axis and values continued by the first sample, one step after the last"""
    v = np.moveaxis(v, axis, 0)
    if closing:
        x = np.concatenate([x, [x[-1] + (x[1] - x[0])]])
        v = np.concatenate([v, v[:1]], axis=0)
    return x, v


def trapz(x, v, axis, closing=True):
    x, v = closed(x, v, axis, closing)
    dx = np.diff(x).reshape((-1,) + (1,) * (v.ndim - 1))
    out = np.sum(0.5 * (v[1:] + v[:-1]) * dx, axis=0)
    return np.expand_dims(out, axis), x[-1] - x[0] if closing else np.max(x) - np.min(x)


def reduce(v, x, axis, op, phys, closing=True):
    """Reduction of the full samples v along axis with coordinates x"""
    n = v.shape[axis]
    if op == "max":
        return np.nanmax(v, axis=axis, keepdims=True)
    if op == "min":
        return np.nanmin(v, axis=axis, keepdims=True)
    if op == "sum":
        return np.nansum(v, axis=axis, keepdims=True)
    integ = phys and n > 1
    if op == "integrate":
        return trapz(x, v, axis, closing)[0]
    if op == "mean":
        if integ:
            t, span = trapz(x, v, axis, closing)
            return t / span
        return np.nanmean(v, axis=axis, keepdims=True)
    if op == "rms":
        if integ:
            t, span = trapz(x, v**2, axis, closing)
            return np.sqrt(t / span)
        return np.sqrt(np.nanmean(v**2, axis=axis, keepdims=True))
    if op == "rss":
        if integ:
            return np.sqrt(trapz(x, v**2, axis, closing)[0])
        return np.sqrt(np.nansum(v**2, axis=axis, keepdims=True))
    raise ValueError(op)


# --------------------------------------------------------------- Fourier
def dft_time(v, x, axis, is_real=True):
    """Components of uniformly sampled v (one period), by the defining sum.
    Real: f >= 0, doubled except f=0. Complex: all signed frequencies."""
    n = v.shape[axis]
    if n == 1:
        return v.astype(complex), np.array([0.0])
    T = n * (x[1] - x[0])
    if is_real:
        k = np.arange(n // 2 + 1)
    else:
        k = np.arange(n) - n // 2
    out = _dft(v, k, n, axis)
    if is_real:
        w = np.where(k == 0, 1.0, 2.0).reshape([-1 if i == axis else 1 for i in range(v.ndim)])
        out = out * w
    return out, k / T


def dft_space(v, x, axis, nper=1):
    """Two-sided components along angle with wavenumbers multiple of nper"""
    n = v.shape[axis]
    if n == 1:
        return v.astype(complex), np.array([0.0])
    k = np.arange(n) - n // 2
    return _dft(v, k, n, axis), k * nper


def _dft(v, k, n, axis):
    j = np.arange(n)
    # exact reduction of the phase
    E = np.exp(-2j * np.pi * ((np.outer(k, j)) % n) / n) / n
    return np.moveaxis(np.tensordot(E, v, axes=(1, axis)), 0, axis)


# --------------------------------------------------------------- interpolation
def lerp_matrix(x, pts):
    """Rows giving the linear interpolation (and continuation) on pts from samples x"""
    x = np.asarray(x, dtype=float)
    W = np.zeros((len(pts), len(x)))
    if np.any(np.diff(x) < 0):
        order = np.argsort(x)
        W[:, order] = lerp_matrix(x[order], pts)
        return W
    for i, p in enumerate(pts):
        hit = np.where(x == p)[0]
        if len(hit):
            W[i, hit[0]] = 1.0
            continue
        k = int(np.searchsorted(x, p))
        k = min(max(k, 1), len(x) - 1)
        t = (p - x[k - 1]) / (x[k] - x[k - 1])
        W[i, k - 1] = 1 - t
        W[i, k] = t
    return W


def step_matrix(x, pts):
    """Rows giving the piecewise constant value: x lists both ends of every segment"""
    W = np.zeros((len(pts), len(x)))
    if len(x) % 2:
        # a jump at the end
        return step_matrix(np.append(x, x[-1] + 1e9 * (1 + abs(x[-1]))), pts)[:, :-1]
    nseg = len(x) // 2
    for i, p in enumerate(pts):
        cand = [s for s in range(nseg) if x[2 * s] <= p <= x[2 * s + 1]]
        if not cand:
            cand = [0] if p < x[0] else [nseg - 1]
        for s in cand:
            W[i, 2 * s] += 1.0 / len(cand)
    return W


def apply_matrix(W, v, axis):
    return np.moveaxis(np.tensordot(W, v, axes=(1, axis)), 0, axis)


def user_points(rng, ax, scale=1.0, m=None, samples=False, outside=True):
    """Points on the full axis (in units scaled by scale), away from near-coincidences:
    each one is a sample, or at least 5 percent of a step away from every sample"""
    x = np.unique(ax.full * scale)
    m = m or int(rng.integers(2, 7))
    pts = []
    for _ in range(m):
        r = rng.random()
        if samples or r < 0.3 or len(x) == 1:
            pts.append(float(pick(rng, list(x))))
        elif r < 0.85 or not outside:
            k = int(rng.integers(len(x) - 1))
            pts.append(float(x[k] + (0.05 + 0.9 * rng.random()) * (x[k + 1] - x[k])))
        elif r < 0.93:
            pts.append(float(x[0] - (0.1 + rng.random()) * (x[1] - x[0])))
        else:
            pts.append(float(x[-1] + (0.1 + rng.random()) * (x[-1] - x[-2])))
    return pts


# --------------------------------------------------------------- spectra of fields
TR = {"time": "freqs", "angle": "wavenumber"}


def spectrum(fld, ft):
    """Fourier components of fld along the axes named in ft (others completed), with
    the lines of each transformed axis"""
    v = fld.values
    lines = {}
    for i, a in enumerate(fld.axes):
        if a.name not in ft:
            v = a.expand(v, i)
        elif a.sym == "antiperiod":
            v = np.concatenate([v, -v], axis=i)
    for i, a in enumerate(fld.axes):
        if a.name not in ft:
            continue
        x = a.full[: v.shape[i]]
        if a.name == "angle":
            nper = a.n // 2 if a.sym == "antiperiod" else (a.n if a.sym == "period" else 1)
            v, lines["wavenumber"] = dft_space(v, x, i, nper)
        else:
            v, lines["freqs"] = dft_time(v, x, i, fld.is_real)
    return v, lines


def mean_square(fld):
    """Mean square of the stored samples"""
    return float(np.mean(np.abs(fld.values) ** 2))
