"""C24: largest harmonics and largest entries"""
import copy

import numpy as np

from checks.c05 import _All
from checks.c07 import fourier_field, line_axis
from checks.c12 import NAMES, norm_of
from checks.common import field_unit, shuffled
from mon.gen import AXUNITS, Ax, Fld, Norm_ref, any_axis, any_field, chance, comp_axis, pick, ratio, rnd, values_for
from mon.ref import TR, extract, make_req, spectrum

RULE = (
    "random field over time and/or angle with other axes in any storage order (plain, periodic, antiperiodic; real or "
    "complex; stored as waveform or as spectrum) and every N from 1 to more than the number of lines; spectrum on all lines "
    "or on a range, in any unit, normalized lines, normalized field; compared with the whole reference spectrum sorted by "
    "magnitude, each returned component looked up in it; N largest entries of plain, symmetric, pattern and label axes, with "
    "or without a given ranking; distinct = axis classes x lines requested x N class"
)


def ranked(case, got, cs, mag, lines, N, what, atol):
    """got: magnitudes, cs: list of returned coordinates (one array per spectral axis),
    mag: reference magnitudes over lines (list of coordinates, same order)"""
    flat = np.sort(mag.ravel())[::-1]
    n = min(N, flat.size)
    got = np.atleast_1d(np.asarray(got))
    case.eq(got, flat[:n], what + ": largest magnitudes in decreasing order", atol=atol)
    pos = []
    for c, ln in zip(cs, lines):
        c = np.atleast_1d(np.asarray(c, dtype=float))
        case.true(c.shape == (n,), what + ": one coordinate per component", got=c, n=n)
        d = np.abs(c[:, None] - ln[None, :])
        k = np.argmin(d, axis=1)
        case.true(np.all(d[np.arange(n), k] <= 1e-9 * (1 + np.max(np.abs(ln)))), what + ": coordinates are lines", got=c, lines=ln)
        pos.append(k)
    at = mag[tuple(pos)] if pos else mag
    case.eq(got, at, what + ": magnitude found at the returned coordinates", atol=atol)
    case.true(len(set(zip(*[list(p) for p in pos]))) == n, what + ": components are distinct", got=list(zip(*pos)))


def nclass(N, size):
    return "1" if N == 1 else ("all" if N == size else ("more" if N > size else "some"))


def run(case, fld, v, lines, ft, D):
    """v: reference components with all axes of fld, lines per spectral name"""
    rng = case.rng
    names = [TR[a.name] if a.name in ft else a.name for a in fld.axes]
    texts, idx, coords = [], [], {}
    spectral = [n for n in names if n in lines]
    only_k = fld.is_real and spectral == ["wavenumber"] and "angle" in ft
    nm = None
    for i, (a, n) in enumerate(zip(fld.axes, names)):
        if n in lines:
            ln = lines[n]
            b = line_axis(n, ln)
            if n in getattr(fld, "lnorm", {}):
                nm, f = fld.lnorm[n]
                x = np.asarray(f(ln, "whole"), dtype=float)
                r = _All(b)
                r.text = n + "->" + nm
                coords[n] = x
            else:
                kinds = ["whole"] if only_k else ["whole", "whole", "range", "interval", "above", "below", "list"]
                r = make_req(rng, b, kinds)
                coords[n] = ln[r.idx] * r.scale
        else:
            if chance(rng, 0.4):
                r = None
            else:
                r = make_req(rng, a, ["idx", "idx", "neg"])
        if r is None:
            idx.append([0])
        else:
            idx.append(r.idx)
            texts.append(r.text)
    w = v[np.ix_(*idx)]
    mag = np.abs(w)
    sp = [i for i, n in enumerate(names) if n in lines]
    mag = mag.reshape([mag.shape[i] for i in sp])
    # one-sided convention of wavenumbers alone, decided on the drawn coordinates
    if only_k and np.min(coords["wavenumber"]) >= 0:
        return None
    u, k = field_unit(rng, fld)
    kw = {} if u == "SI" else {"unit": u}
    if "ref" in fld.norms and u == "SI" and chance(rng, 0.5):
        kw["is_norm"] = True
        k = 1.0 / fld.norms["ref"]().ref
    if chance(rng, 0.2):
        kw["is_flat"] = chance(rng, 0.5)
    N = int(pick(rng, [1, 2, 3, int(rng.integers(1, mag.size + 1)), mag.size, mag.size + 3]))
    args = shuffled(rng, texts)
    case.log("get_harmonics", N, args, kw)
    res = case.lib(D.get_harmonics, N, *(args if chance(rng, 0.9) else [tuple(args)]), **kw)
    atol = 1e-10 * abs(k) * np.max(np.abs(fld.values))
    ranked(case, res[fld.symbol], [res[names[i]] for i in sp], mag * abs(k), [coords[names[i]] for i in sp], N, "%d of %s" % (N, args), atol)
    return sorted(t[:12] for t in texts if t.startswith(("freqs", "wavenumber"))), nclass(N, mag.size), sorted(kw)


def waveform(case):
    rng = case.rng
    fld = fourier_field(rng, minn=2, maxn=10, circle=True, pattern=chance(rng, 0.3))
    if chance(rng, 0.2):
        fld.norms = {"ref": lambda: Norm_ref(ref=2.5)}
    ft = [n for n in fld.names() if n in TR and chance(rng, 0.85)] or [[n for n in fld.names() if n in TR][0]]
    fld.lnorm = {}
    nm = pick(rng, NAMES)
    for a in fld.axes:
        if a.name in ft and chance(rng, 0.25):
            b = copy.copy(a)
            b.unit = "SI"
            kind, obj, f = norm_of(rng, b, ("ref", "ref", "affine"))
            a.norms = {nm: (lambda ax, full, obj=obj: copy.deepcopy(obj))}
            fld.lnorm[TR[a.name]] = (nm, f)
    case.log(fld)
    v, lines = spectrum(fld, ft)
    D = case.lib(fld.build)
    s = run(case, fld, v, lines, ft, D)
    if s is not None:
        case.sig(fld.cls(), fld.is_real, sorted(ft), sorted(fld.lnorm), *s)


def stored(case):
    """Objects holding a spectrum"""
    rng = case.rng
    names = pick(rng, [["freqs"], ["wavenumber"], ["freqs", "wavenumber"], ["freqs", "wavenumber"]])
    names = shuffled(rng, names + pick(rng, [[], ["z"], ["speed"], ["z", "load"]]))
    axes = []
    for nm in names:
        if nm == "freqs":
            axes.append(any_axis(rng, nm, start=0.0 if chance(rng, 0.5) else rnd(rng, 0, 50), n=int(rng.integers(2, 9))))
        elif nm == "wavenumber":
            n = int(rng.integers(2, 9))
            a = any_axis(rng, nm, n=n)
            k = np.sort(rng.permutation(25)[:n] - 12.0)
            a = Ax(nm, "dimless", k, "1d")
            axes.append(a)
        else:
            axes.append(any_axis(rng, nm))
    fld = Fld(axes, values_for(rng, axes, pick(rng, ["c", "c", "f"])), unit=pick(rng, ["T", "N", "Pa"]))
    case.log(fld)
    D = case.lib(fld.build)
    lines = {a.name: a.full for a in axes if a.name in ("freqs", "wavenumber")}
    s = run(case, fld, fld.values, lines, [], D)
    if s is not None:
        case.sig(fld.cls(), *s)


def points(case):
    """Lines given by the caller: the largest of the magnitudes answered at these lines"""
    rng = case.rng
    fld = fourier_field(rng, minn=2, maxn=10, circle=True)
    t = [n for n in fld.names() if n in TR]
    ft = [n for n in t if chance(rng, 0.8)] or [t[0]]
    case.log(fld)
    D = case.lib(fld.build)
    args, pts = [], {}
    for a in fld.axes:
        if a.name in ft:
            n = TR[a.name]
            m = int(rng.integers(2, 24))
            if n == "freqs":
                top = (len(a.full) - 1) / (2 * np.ptp(a.full)) if np.ptp(a.full) > 0 else 1.0
                p = rng.uniform(-top if not fld.is_real else 0, top, m)
            else:
                p = rng.permutation(np.arange(-12.0, 13.0))[:m]
            pts[n] = np.sort(p) if chance(rng, 0.8) else p
            args.append(n + "=axis_data")
        elif chance(rng, 0.5):
            args.append(make_req(rng, a, ["idx"]).text)
    args = shuffled(rng, args)
    case.log("axis_data", pts)
    ref = case.lib(case.lib(fld.build).get_magnitude_along, *args, axis_data={k: p.copy() for k, p in pts.items()})
    sp = [TR[a.name] for a in fld.axes if a.name in ft]
    mag = np.asarray(ref[fld.symbol]).reshape([len(pts[n]) for n in sp])
    N = int(pick(rng, [1, 2, 3, int(rng.integers(1, mag.size + 1)), mag.size]))
    case.log("get_harmonics", N, args)
    res = case.lib(D.get_harmonics, N, *args, axis_data=pts)
    ranked(case, res[fld.symbol], [res[n] for n in sp], mag, [pts[n] for n in sp], N, "%d of %s" % (N, args), 1e-10 * np.max(np.abs(fld.values)))
    case.sig(fld.cls(), sp, nclass(N, mag.size))


def entries(case):
    """N largest entries of an axis: by the ranking attached to the axis, by coordinate otherwise"""
    rng = case.rng
    fld = any_field(rng, syms=pick(rng, [None, None, "any"]), comp=0.4, naxes=int(rng.integers(1, 4)), kind=pick(rng, ["f", "f", "c"]))
    a = pick(rng, [b for b in fld.axes if b.labels is not None] or fld.axes) if chance(rng, 0.5) else pick(rng, fld.axes)
    if a.is_step:
        return
    n = len(a.full)
    axes = [b.build() for b in fld.axes]
    i = fld.index(a.name)
    given = a.sym is None and a.lin is None and chance(rng, 0.5)
    if given:
        rank = [int(k) for k in rng.permutation(n)]
        axes[i].sort_indices = list(rank)
    elif a.labels is not None:
        rank = sorted(range(n), key=lambda k: a.labels[k], reverse=True)
    else:
        rank = [int(k) for k in np.argsort(-a.full)]
    D = case.lib(fld.build, axes=axes)
    N = int(rng.integers(1, n + 2))
    unit, scale, suffix = None, 1.0, ""
    if a.labels is None and chance(rng, 0.3):
        unit = pick(rng, AXUNITS[a.unit])
        scale, suffix = ratio(a.unit, unit), "{" + unit + "}"
    idx = rank[:N]
    reqs = [make_req(rng, b, ["whole", "idx", "range", "list"]) for b in fld.axes if b is not a and chance(rng, 0.8)]
    q = _All(a)
    q.idx, q.scale, q.text = idx, scale, "%s[%dlargest]%s" % (a.name, N, suffix)
    exp, coords = extract(fld, reqs + [q])
    args = shuffled(rng, [r.text for r in reqs] + [q.text])
    u, k = field_unit(rng, fld)
    case.log(fld)
    case.log("get_along", args, u, "rank", rank if given else "coordinates")
    res = case.lib(D.get_along, *args, unit=u, is_squeeze=False)
    case.eq(res[fld.symbol], exp * k, "field of %s" % args)
    for r in reqs + [q]:
        case.eq(np.atleast_1d(res[r.name]), coords[r.name], "axis %s of %s" % (r.name, args))
    again = case.lib(D.get_along, *args, unit=u, is_squeeze=False)
    case.eq(again[fld.symbol], exp * k, "same request again")
    case.sig(a.cls(), given, len(fld.axes), nclass(N, n), unit)


SCENARIOS = [
    ("waveform", waveform, 4000, 75000),
    ("stored", stored, 1200, 24000),
    ("entries", entries, 1600, 30000),
    ("points", points, 1000, 18000),
]
