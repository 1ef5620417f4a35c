"""C08: time-frequency conversions are inverse of each other"""
import copy

import numpy as np

from checks.c07 import fourier_field
from checks.common import field_unit, shuffled
from mon.gen import AXUNITS, ratio, Ax, Fld, Norm_ref, any_axis, chance, pick, values_for
from mon.ref import TR, extract, make_req, spectrum

RULE = (
    "random regularly sampled field (even number of samples per period) with time and/or angle, converted to frequency and "
    "back, frequency objects built from an independent spectrum and converted, or asked for time/angle data whole, sliced, "
    "on a part, on user points or mixed with spectral axes; distinct = axis classes x request kinds x real/complex"
)


def even_field(rng, names=None, cplx=0.2, minn=2, zero_nyq=False, pattern=True):
    fld = fourier_field(rng, names=names, cplx=cplx, minn=minn, maxn=12, even=pick(rng, [True, "time"]), pattern=pattern, circle=True)
    if zero_nyq:
        v = fld.values
        for i, a in enumerate(fld.axes):
            if a.name in TR:
                w = np.concatenate([v, -v], axis=i) if a.sym == "antiperiod" else v
                n = w.shape[i]
                alt = np.where(np.arange(n) % 2 == 0, 1.0, -1.0).reshape([-1 if j == i else 1 for j in range(v.ndim)])
                w = w - alt * np.mean(w * alt, axis=i, keepdims=True)
                v = np.take(w, range(v.shape[i]), axis=i)
        fld.values = v
    return fld


def with_norms(rng, fld):
    if chance(rng, 0.3):
        k = 2.5
        fld.norms = {"ref": lambda: Norm_ref(ref=k)}
    return fld


def check_time(case, D2, fld, what):
    """D2 is a time object holding the field fld"""
    args = shuffled(case.rng, fld.names())
    res = case.lib(D2.get_along, *args, is_squeeze=False)
    case.eq(res[fld.symbol], fld.full, what, rtol=1e-9, atol=1e-10 * np.max(np.abs(fld.values)))
    for a in fld.axes:
        exp = a.full if a.labels is None else a.labels
        if a.labels is None:
            case.eq(np.atleast_1d(res[a.name]), exp, "%s: axis %s" % (what, a.name), rtol=1e-9)
        else:
            case.eq(np.asarray(res[a.name]), np.asarray(exp), "%s: axis %s" % (what, a.name))
    axes = case.lib(D2.get_axes)
    case.true([x.name for x in axes] == fld.names(), "names of the axes", got=[x.name for x in axes])
    case.true([x.unit for x in axes] == [a.unit for a in fld.axes], "units of the axes", got=[x.unit for x in axes])
    case.true((D2.name, D2.symbol, D2.unit) == (fld.name, fld.symbol, fld.unit), "name, symbol and unit", got=(D2.name, D2.symbol, D2.unit))
    case.true(D2.is_real == fld.is_real, "real data flag", got=D2.is_real)
    for x, a in zip(axes, fld.axes):
        if a.sym in ("period", "antiperiod") and a.name in TR:
            # the number of samples of one period is kept
            n = len(a.stored) * (2 if a.sym == "antiperiod" else 1)
            case.true(len(x.get_values(is_oneperiod=True)) == n, "one period of axis %s" % a.name, got=len(x.get_values(is_oneperiod=True)), expected=n)


def round_trip(case):
    rng = case.rng
    fld = with_norms(rng, even_field(rng))
    D = case.lib(fld.build)
    case.log(fld)
    case.log("time_to_freq, freq_to_time")
    F = case.lib(D.time_to_freq)
    case.true(type(F).__name__ == "DataFreq", "type", got=type(F).__name__)
    v, lines = spectrum(fld, [n for n in fld.names() if n in TR])
    args = [TR.get(n, n) for n in fld.names()]
    res = case.lib(F.get_along, *args, is_squeeze=False)
    case.eq(res[fld.symbol], v, "components of the converted object", atol=1e-10 * np.max(np.abs(fld.values)))
    for n in lines:
        case.eq(res[n], lines[n], "lines of the converted object", atol=1e-9)
        u = [x.unit for x in F.get_axes() if x.name == n][0]
        case.true(u == {"freqs": "Hz", "wavenumber": "dimless"}[n], "unit of the lines", got=u)
    D2 = case.lib(F.freq_to_time)
    case.true(type(D2).__name__ == "DataTime", "type", got=type(D2).__name__)
    check_time(case, D2, fld, "round trip")
    if fld.norms:
        case.true("ref" in D2.normalizations and D2.normalizations["ref"].ref == 2.5, "normalizations are kept")
    # and once more
    F2 = case.lib(D2.time_to_freq)
    res2 = case.lib(F2.get_along, *args, is_squeeze=False)
    case.eq(res2[fld.symbol], v, "components after the round trip", atol=1e-10 * np.max(np.abs(fld.values)))
    case.sig(fld.cls(), fld.is_real)


def freq_object(fld, spec=None):
    """DataFreq object built from the independent spectrum of fld"""
    v, lines = spectrum(fld, [n for n in fld.names() if n in TR]) if spec is None else spec
    axes = []
    vv = v
    for i, a in enumerate(fld.axes):
        if a.name in TR:
            nm = TR[a.name]
            b = Ax(nm, "Hz" if nm == "freqs" else "dimless", lines[nm], "1d")
            if a.sym == "period":
                b.sym, b.n = "period", a.n
            elif a.sym == "antiperiod" and a.n > 2:
                b.sym, b.n = "period", a.n // 2
            axes.append(b)
        else:
            axes.append(a)
            # stored part only
            idx = range(len(a.stored)) if a.sym != "pattern" else [list(a.rebuild).index(j) for j in range(len(a.stored))]
            vv = np.take(vv, idx, axis=i)
    out = Fld(axes, vv, symbol=fld.symbol, unit=fld.unit, name=fld.name, is_real=fld.is_real)
    return out, v, lines


def from_freq(case):
    rng = case.rng
    fld = even_field(rng)
    G, v, lines = freq_object(fld)
    F = case.lib(G.build)
    case.log(fld)
    case.log("built from", G)
    D = case.lib(F.freq_to_time)
    check_time(case, D, fld, "freq_to_time")
    F2 = case.lib(D.time_to_freq)
    args = [TR.get(n, n) for n in fld.names()]
    res = case.lib(F2.get_along, *args, is_squeeze=False)
    case.eq(res[fld.symbol], v, "components after the round trip", atol=1e-10 * np.max(np.abs(fld.values)))
    for n in lines:
        case.eq(res[n], lines[n], "lines after the round trip", atol=1e-9)
    case.sig(fld.cls(), fld.is_real)


def ask(case):
    """Frequency object asked for time or angle data, whole, sliced or on a part"""
    rng = case.rng
    fld = even_field(rng)
    G, v, lines = freq_object(fld)
    F = case.lib(G.build)
    case.log(fld)
    mixed = set(fld.names()) >= {"time", "angle"} and chance(rng, 0.3)
    keep = []
    if mixed:
        keep = [pick(rng, ["time", "angle"])]
    if keep:
        w, ln = spectrum(fld, keep)
    else:
        w, ln = fld.full, {}
    axes = []
    for a in fld.axes:
        if a.name in keep:
            b = Ax(TR[a.name], "Hz" if a.name == "time" else "dimless", ln[TR[a.name]], "1d")
            b.lin = {"how": "lines"}
            axes.append(b)
        else:
            axes.append(a)
    S = Fld(axes, w, symbol=fld.symbol, unit=fld.unit)
    reqs = []
    for a in axes:
        if a.name in ("time", "angle"):
            # coordinates are computed: no bound exactly on a sample
            c = copy.copy(a)
            c.lin = {"how": "computed"}
            reqs.append(make_req(rng, c, ["whole", "idx", "list", "range", "interval", "above", "below", "val"] if not keep else ["whole"]))
        elif a.name in TR.values():
            reqs.append(make_req(rng, a, ["whole"], unit_p=0))
        elif chance(rng, 0.85):
            reqs.append(make_req(rng, a, ["whole", "idx", "range"]))
    exp, coords = extract(S, reqs, values=w)
    args = shuffled(rng, [r.text for r in reqs])
    u, k = field_unit(rng, fld)
    case.log("get_along", args, u)
    res = case.lib(F.get_along, *args, unit=u, is_squeeze=False)
    case.eq(res[fld.symbol], exp * k, "field asked to the frequency object %s" % args, rtol=1e-9, atol=1e-10 * abs(k) * np.max(np.abs(fld.values)))
    for r in reqs:
        if r.kind == "take":
            case.eq(np.atleast_1d(res[r.name]), coords[r.name], "axis %s" % r.name, atol=1e-9)
    case.sig(fld.cls(), fld.is_real, sorted((r.name, r.text[: len(r.name) + 1]) for r in reqs))


def series(v, lines, fld, pts):
    """Fourier series evaluated term by term at points of time and/or angle"""
    w = v
    for i, a in enumerate(fld.axes):
        if a.name in pts:
            f = lines[TR[a.name]]
            om = 2 * np.pi * f if a.name == "time" else f
            E = np.exp(1j * np.outer(pts[a.name], om))
            w = np.moveaxis(np.tensordot(E, w, axes=(1, i)), 0, i)
    return w.real if fld.is_real else w


def points(case):
    """Frequency object asked on user points: value of the Fourier series"""
    rng = case.rng
    fld = even_field(rng, minn=4, zero_nyq=True, pattern=False)
    G, v, lines = freq_object(fld)
    F = case.lib(G.build)
    case.log(fld)
    pts, texts, data, how, scale = {}, [], {}, [], {}
    mine = [n for n in fld.names() if n in TR]
    user = [n for n in mine if chance(rng, 0.7)] or mine[:1]
    for a in fld.axes:
        if a.name not in TR:
            texts.append(a.name)
            continue
        if a.name not in user:
            pts[a.name] = a.full
            texts.append(a.name)
            continue
        T = a.full[-1] + (a.full[1] - a.full[0])
        w = pick(rng, ["random", "random", "uniform", "coarse", "fine", "fewer", "part"])
        if w == "random":
            x = np.sort(rng.random(int(rng.integers(2, 9)))) * T * 0.97 + 0.005 * T
        elif w == "uniform":
            m = int(rng.integers(2, 12))
            x = np.arange(m) * (0.8 * T / m)
        elif w == "coarse":
            # every other sample of the whole axis
            x = a.full[::2]
            if len(x) < 2:
                x = a.full
        elif w == "fewer":
            m = int(rng.integers(2, len(a.full)))
            x = np.arange(m) * (T / m)
        elif w == "part":
            m = int(rng.integers(2, max(3, len(a.full) // 2 + 1)))
            x = np.arange(m) * (T / 2 / m)
        else:
            x = np.arange(2 * len(a.full)) * (a.full[1] - a.full[0]) / 2
        pts[a.name] = x
        un = pick(rng, AXUNITS[a.unit]) if chance(rng, 0.3) else None
        sc = 1.0 if un is None else ratio(a.unit, un)
        scale[a.name] = sc
        data[a.name] = np.array(x) * sc
        texts.append(a.name + "=axis_data" + ("" if un is None else "{%s}" % un))
        how.append(w)
    exp = series(v, lines, fld, pts)
    args = shuffled(rng, texts)
    case.log("get_along", args, data)
    res = case.lib(F.get_along, *args, axis_data=data, is_squeeze=False)
    case.eq(res[fld.symbol], exp, "Fourier series at user points %s" % args, rtol=1e-7, atol=1e-8 * np.max(np.abs(fld.values)))
    for n in user:
        case.eq(res[n], pts[n] * scale[n], "user points")
    case.sig(fld.cls(), fld.is_real, sorted(user), sorted(how))


SCENARIOS = [
    ("round_trip", round_trip, 1400, 16000),
    ("from_freq", from_freq, 1200, 14000),
    ("ask", ask, 2400, 24000),
    ("points", points, 1600, 16000),
]
