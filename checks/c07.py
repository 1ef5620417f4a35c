"""C07: forward Fourier transforms"""
import numpy as np

from checks.common import field_unit, shuffled
from checks.c05 import _All
from mon.gen import AXUNITS, Ax, Fld, any_axis, axis_1d, chance, comp_axis, lin_axis, pick, ratio, values_for
from mon.ref import TR, extract, make_req, spectrum

RULE = (
    "random field with regular time and/or angle starting at zero (plain, periodic, antiperiodic; odd and even lengths; "
    "real or complex data) and up to two other axes in any storage order; whole spectra or lines requested by index, list, "
    "range, interval, bound or value, other axes extracted; compared with the defining sum evaluated term by term; "
    "distinct = axis classes x request kinds x real/complex"
)


def fourier_field(rng, minn=2, maxn=11, kind=None, pool=None, names=None, even=False, cplx=0.25, pattern=True, circle=False):
    names = names or pick(rng, [["time"], ["angle"], ["time", "angle"], ["time", "angle"]])
    names = shuffled(rng, names + pick(rng, [[], [], ["z"], ["speed"], ["z", "load"]]))
    axes = []
    for nm in names:
        if nm in ("time", "angle"):
            s = pick(rng, [None, None, "period", "antiperiod"])
            n = int(rng.integers(minn, maxn))
            if even and s != "antiperiod" and n % 2 and (nm == "time" or even != "time"):
                n += 1
            a = any_axis(rng, nm, sym=s, uniform=True, start=0.0, n=n)
            if circle and nm == "angle":
                # the whole axis is one turn
                a = one_turn(rng, a)
            axes.append(a)
        else:
            axes.append(any_axis(rng, nm, sym="pattern" if pattern and nm == "z" and chance(rng, 0.4) else None))
    if chance(rng, 0.1):
        axes.insert(int(rng.integers(len(axes) + 1)), comp_axis(rng))
    real = not chance(rng, cplx)
    vals = values_for(rng, axes, "f" if real else "c")
    return Fld(axes, vals, unit=pick(rng, ["T", "A", "V", "N"]), is_real=real)


def one_turn(rng, a):
    step = 2 * np.pi / (len(a.stored) * a.n)
    make = lin_axis if a.lin is not None else axis_1d
    b = make(rng, "angle", len(a.stored), 0.0, step=step)
    b.sym, b.n = a.sym, a.n
    if len(a.stored) == 1 and a.sym:
        b.delta = step
    return b


def line_axis(name, lines):
    a = Ax(name, "Hz" if name == "freqs" else "dimless", np.asarray(lines, dtype=float), "1d")
    a.lin = {"how": "lines"}
    return a


def expected(rng, fld, ft, kinds, v, lines, p=0.85, okinds=("whole", "idx", "list", "range", "interval")):
    """Random request on lines and other axes; reference values before conversion"""
    axes = [line_axis(TR[a.name], lines[TR[a.name]]) if a.name in ft else a for a in fld.axes]
    S = Fld(axes, v, symbol=fld.symbol, unit=fld.unit)
    reqs = []
    for a in axes:
        if a.name in ("freqs", "wavenumber"):
            reqs.append(make_req(rng, a, kinds))
        elif chance(rng, p):
            reqs.append(make_req(rng, a, [k for k in okinds if not (a.is_step and k == "interval")]))
    w, coords = extract(S, reqs, values=v)
    # one-sided convention for wavenumbers of real data alone
    if fld.is_real and "wavenumber" in lines and "freqs" not in lines:
        r = [r for r in reqs if r.name == "wavenumber"][0]
        k = lines["wavenumber"][r.idx]
        if r.kind == "take" and np.min(k) >= 0:
            i = [a.name for a in axes].index("wavenumber")
            w = w * np.where(k == 0, 1.0, 2.0).reshape([-1 if j == i else 1 for j in range(w.ndim)])
    return reqs, w, coords


def check(case, fld, res, w, coords, reqs, k, what):
    case.eq(res[fld.symbol], w * k, what, rtol=1e-9, atol=1e-11 * np.max(np.abs(fld.values)) * abs(k))
    for r in reqs:
        if r.kind == "nearest":
            case.true(abs(float(np.ravel(res[r.name])[0]) - coords[r.name][0]) <= abs(r.value - coords[r.name][0]) + 1e-9 * (1 + abs(coords[r.name][0])), "requested line", got=res[r.name])
        else:
            case.eq(np.atleast_1d(res[r.name]), coords[r.name], "axis %s" % r.name, atol=1e-9)


def lines_whole(case):
    rng = case.rng
    fld = fourier_field(rng)
    ft = [n for n in fld.names() if n in TR and chance(rng, 0.8)] or [[n for n in fld.names() if n in TR][0]]
    v, lines = spectrum(fld, ft)
    reqs, w, coords = expected(rng, fld, ft, ["whole"], v, lines)
    D = case.lib(fld.build)
    args = shuffled(rng, [r.text for r in reqs])
    u, k = field_unit(rng, fld)
    case.log(fld)
    case.log("get_along", args, u)
    res = case.lib(D.get_along, *args, unit=u, is_squeeze=False)
    check(case, fld, res, w, coords, reqs, k, "components %s" % args)
    case.sig(fld.cls(), fld.is_real, sorted(ft))


def lines_some(case):
    rng = case.rng
    fld = fourier_field(rng)
    ft = [n for n in fld.names() if n in TR and chance(rng, 0.8)] or [[n for n in fld.names() if n in TR][0]]
    v, lines = spectrum(fld, ft)
    kinds = ["whole", "idx", "list", "range", "interval", "above", "below"]
    reqs, w, coords = expected(rng, fld, ft, kinds, v, lines)
    D = case.lib(fld.build)
    args = shuffled(rng, [r.text for r in reqs])
    case.log(fld)
    case.log("get_along", args)
    res = case.lib(D.get_along, *args, is_squeeze=False)
    check(case, fld, res, w, coords, reqs, 1.0, "components %s" % args)
    case.sig(fld.cls(), fld.is_real, sorted((r.name, r.text[: len(r.name) + 2]) for r in reqs))


def mag_phase(case):
    """Magnitude and phase are the modulus and argument of the components"""
    rng = case.rng
    fld = fourier_field(rng)
    ft = [n for n in fld.names() if n in TR and chance(rng, 0.8)] or [[n for n in fld.names() if n in TR][0]]
    v, lines = spectrum(fld, ft)
    reqs, w, coords = expected(rng, fld, ft, ["whole", "idx", "range", "interval", "above"], v, lines)
    D = case.lib(fld.build)
    args = shuffled(rng, [r.text for r in reqs])
    case.log(fld)
    case.log("magnitude and phase", args)
    u, k = field_unit(rng, fld)
    res = case.lib(D.get_magnitude_along, *args, unit=u, is_squeeze=False)
    check(case, fld, res, np.abs(w), coords, reqs, k, "magnitude %s" % args)
    deg = chance(rng, 0.5)
    res = case.lib(D.get_phase_along, *args, **({"unit": "°"} if deg else {}))
    ph = np.squeeze(np.asarray(res[fld.symbol], dtype=float))
    ww = np.squeeze(w)
    case.true(ph.shape == ww.shape, "shape of the phase", got=ph.shape, expected=ww.shape)
    if deg:
        ph = ph * np.pi / 180
    big = np.abs(ww) > 1e-6 * np.max(np.abs(fld.values))
    if np.any(big):
        d = np.exp(1j * ph) - ww / np.where(np.abs(ww) > 0, np.abs(ww), 1)
        case.true(np.all(np.abs(d[big] if d.ndim else d) < 1e-6), "phase", got=ph, components=ww)
        case.true(np.all(np.abs(ph) <= np.pi + 1e-9), "phase in (-pi, pi]", got=ph)
    case.sig(fld.cls(), fld.is_real, sorted((r.name, r.text[: len(r.name) + 2]) for r in reqs), deg)


def line_value(case):
    """One line requested by its value"""
    rng = case.rng
    fld = fourier_field(rng, cplx=0.2)
    ft = [n for n in fld.names() if n in TR]
    v, lines = spectrum(fld, ft)
    nm = pick(rng, sorted(lines))
    axes = [line_axis(TR[a.name], lines[TR[a.name]]) if a.name in ft else a for a in fld.axes]
    i = [a.name for a in axes].index(nm)
    j = int(rng.integers(len(lines[nm])))
    f = float(lines[nm][j])
    if len(ft) == 1 and nm == "wavenumber" and (fld.is_real and len(lines[nm]) == 1):
        return
    unit, sc = "", 1.0
    if nm == "freqs" and chance(rng, 0.3):
        unit, sc = "{kHz}", 1e-3
    # away from rounding at the ends of the axis
    val = f * sc
    if j == len(lines[nm]) - 1:
        val -= abs(val) * 1e-12
    if j == 0:
        val += abs(val) * 1e-12
    args = ["%s=%r%s" % (nm, val, unit) if a.name == nm else a.name for a in axes]
    w = np.take(v, [j], axis=i)
    D = case.lib(fld.build)
    args = shuffled(rng, args)
    case.log(fld)
    case.log("get_along", args)
    res = case.lib(D.get_along, *args, is_squeeze=False)
    case.eq(res[fld.symbol], w, "component at %s" % args, rtol=1e-7, atol=1e-9 * np.max(np.abs(fld.values)))
    case.eq(np.atleast_1d(res[nm]), [val], "requested line")
    case.sig(fld.cls(), nm, j == 0, j == len(lines[nm]) - 1, unit)


def parseval(case):
    rng = case.rng
    fld = fourier_field(rng, cplx=0.3, pattern=False, minn=2, maxn=14)
    ft = [n for n in fld.names() if n in TR]
    D = case.lib(fld.build)
    args = [TR.get(a.name, a.name) for a in fld.axes]
    case.log(fld)
    case.log("Parseval", args)
    res = case.lib(D.get_along, *shuffled(rng, args), is_squeeze=False)
    X = np.asarray(res[fld.symbol])
    P = np.abs(X) ** 2
    if "freqs" in args and fld.is_real:
        i = args.index("freqs")
        a = fld.axes[i]
        n = len(a.stored) * (2 if a.sym == "antiperiod" else 1)
        f = np.asarray(res["freqs"])
        wgt = np.where(np.arange(len(f)) == 0, 1.0, 0.5)
        if n > 1 and n % 2 == 0:
            wgt[-1] = 0.25
        P = P * wgt.reshape([-1 if j == i else 1 for j in range(P.ndim)])
    axes = tuple(j for j, a in enumerate(fld.axes) if a.name in ft)
    # mean square over the transformed axes, per sample of the others
    ms = np.mean(np.abs(fld.full) ** 2, axis=axes, keepdims=True)
    case.eq(np.sum(P, axis=axes, keepdims=True), ms, "squared amplitudes sum to the mean square")
    # physical lines
    for i, a in enumerate(fld.axes):
        if a.name == "time" and len(a.stored) > 1:
            n = len(a.stored) * (2 if a.sym == "antiperiod" else 1)
            T = n * (a.stored[1] - a.stored[0])
            k = np.asarray(res["freqs"]) * T
            case.eq(k, np.round(k), "frequencies are multiples of the inverse duration", atol=1e-8)
        if a.name == "angle" and len(a.stored) > 1:
            p = a.n // 2 if a.sym == "antiperiod" else (a.n if a.sym == "period" else 1)
            k = np.asarray(res["wavenumber"]) / p
            case.eq(k, np.round(k), "wavenumbers are multiples of the number of periods", atol=1e-8)
    case.sig(fld.cls(), fld.is_real)


def single_harmonic(case):
    """A field made of one travelling wave has that harmonic only"""
    rng = case.rng
    nt, na = int(2 * rng.integers(3, 12)), int(2 * rng.integers(3, 12))
    pt, pa = pick(rng, [(None, 1), ("period", 3), ("antiperiod", 4)]), pick(rng, [(None, 1), ("period", 2), ("antiperiod", 6)])
    t = any_axis(rng, "time", sym=pt[0], uniform=True, start=0.0, n=nt)
    a = any_axis(rng, "angle", sym=pa[0], uniform=True, start=0.0, n=na)
    mt, ma = 1, 1
    if pt[0] == "antiperiod":
        nt, mt = 2 * nt, 2
    if pa[0] == "antiperiod":
        na, ma = 2 * na, 2
    f = int(rng.integers(1, nt // 2))
    r = int(rng.integers(1, na // 2)) * pick(rng, [-1, 1])
    if mt == 2 and f % 2 == 0:
        f = f - 1
    if ma == 2 and r % 2 == 0:
        r += 1 if r < 0 else -1
    if abs(r) >= na // 2 or r == 0 or f == 0:
        return
    amp, ph = rnd_amp(rng)
    jt, ja = np.arange(len(t.stored)), np.arange(len(a.stored))
    # cos(2 pi f t + r alpha): positive frequency f with wavenumber r
    arg = 2 * np.pi * f * jt[:, None] / nt + 2 * np.pi * r * ja[None, :] / na + ph
    order = chance(rng, 0.5)
    vals = amp * np.cos(arg)
    fld = Fld([t, a], vals) if order else Fld([a, t], vals.T.copy())
    D = case.lib(fld.build)
    case.log(fld)
    case.log("harmonic", f, r, amp, ph)
    res = case.lib(D.get_along, "freqs", "wavenumber", is_squeeze=False)
    X = np.asarray(res[fld.symbol])
    if not order:
        X = X.T
    F, R = np.asarray(res["freqs"]), np.asarray(res["wavenumber"])
    T = nt * (t.stored[1] - t.stored[0])
    np_ = a.n // 2 if a.sym == "antiperiod" else (a.n if a.sym == "period" else 1)
    i, j = int(np.argmin(np.abs(F - f / T))), int(np.argmin(np.abs(R - r * np_)))
    case.true(abs(F[i] - f / T) < 1e-6 * (1 + F[-1]) and abs(R[j] - r * np_) < 1e-6, "line of the wave", F=F, R=R, f=f / T, r=r * np_)
    E = np.zeros(X.shape, dtype=complex)
    E[i, j] = amp * np.exp(1j * ph)
    case.eq(X, E, "spectrum of one travelling wave", atol=1e-9 * amp)
    case.sig(t.cls(), a.cls(), order, r > 0)


def rnd_amp(rng):
    return float(0.5 + rng.random()), float(rng.random() * 6 - 3)


SCENARIOS = [
    ("lines_whole", lines_whole, 3000, 30000),
    ("lines_some", lines_some, 3000, 30000),
    ("mag_phase", mag_phase, 1600, 16000),
    ("line_value", line_value, 1400, 14000),
    ("parseval", parseval, 1000, 12000),
    ("single_harmonic", single_harmonic, 600, 6000),
]
