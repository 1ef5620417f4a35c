"""C17: change of rotating referential"""
import numpy as np

from checks.c07 import one_turn
from mon.gen import Fld, any_axis, axis_1d, chance, lin_axis, pick, rnd, values_for
from SciDataTool import Data1D, DataFreq, VectorField

RULE = (
    "random real (sometimes complex) field over time, angle and possibly z (plain, pattern, periodic), stored in time or in "
    "frequency, plain, periodic or antiperiodic in time and angle; speeds of either sign, multiple or not of the frequency "
    "step, including zero; every row of the answered spectrum compared with the four-quadrant sum shifted term by term, the "
    "answered field with the sum evaluated at shifted angles, waveforms with linear interpolation; distinct = axis classes x "
    "speed class x domain"
)


def make(rng, cplx=0.1, sym_t=True, nmin=3, smooth=True):
    """Real time-angle(-z) field without component at the limit of the sampling"""
    f0 = pick(rng, [1.0, 2.5, 50.0, 10.0 / 3, 0.2, 1000.0])
    s = pick(rng, [None, None, "period", "antiperiod"]) if sym_t else None
    n = int(rng.integers(nmin, 9))
    k = 1 if s is None else int(rng.integers(2, 5)) if s == "period" else int(2 * rng.integers(1, 3))
    step = 1.0 / (f0 * n * k)
    t = (lin_axis if chance(rng, 0.6) else axis_1d)(rng, "time", n, 0.0, step=step)
    t.sym, t.n = s, k
    n = int(rng.integers(nmin, 9))
    a = one_turn(rng, any_axis(rng, "angle", sym=pick(rng, [None, None, "period", "antiperiod"]), uniform=True, start=0.0, n=n))
    axes = [t, a]
    if chance(rng, 0.6):
        axes.append(any_axis(rng, "z", sym=pick(rng, [None, "pattern", "pattern", "period"])))
    real = not chance(rng, cplx)
    v = values_for(rng, axes, "f" if real else "c")
    if len(axes) > 2 and v.shape[2] > 1 and chance(rng, 0.3):
        # opposite slices along the third axis
        v = np.concatenate([v[:, :, :1], -v[:, :, :1]] + [0 * v[:, :, :1]] * (v.shape[2] - 2), axis=2)
    elif len(axes) > 2 and v.shape[2] > 1 and chance(rng, 0.2):
        # nothing in some of the slices, sometimes the first one
        v[:, :, pick(rng, [[0], [0], [v.shape[2] - 1]])] = 0
    if smooth:
        for i, x in enumerate(axes[:2]):
            w = np.concatenate([v, -v], axis=i) if x.sym == "antiperiod" else v
            m = w.shape[i]
            if m % 2 == 0:
                alt = np.where(np.arange(m) % 2 == 0, 1.0, -1.0).reshape([-1 if j == i else 1 for j in range(v.ndim)])
                w = w - alt * np.mean(w * alt, axis=i, keepdims=True)
                v = np.take(w, range(v.shape[i]), axis=i)
    return Fld(axes, v, unit=pick(rng, ["T", "A", "N"]), is_real=real), f0


def speed_of(rng, f0, zero=True):
    kind = pick(rng, ["line", "line", "half", "third", "close", "any", "zero"] if zero else ["line", "half", "any"])
    sgn = pick(rng, [1, -1])
    if kind == "line":
        return kind, sgn * 60 * f0 * int(rng.integers(1, 4))
    if kind == "half":
        return kind, sgn * 60 * f0 * 0.5
    if kind == "third":
        return kind, sgn * 60 * f0 / 3
    if kind == "close":
        # harmonics a little apart
        return kind, sgn * 60 * (f0 * int(rng.integers(1, 3)) + pick(rng, [1, -1]) * pick(rng, [1e-2, 1e-3, 2e-4, 3e-5]))
    if kind == "any":
        return kind, sgn * 60 * rnd(rng, 0.1, 40, 2)
    return kind, 0.0


def quadrants(fld, f0):
    """{(f, r): complex amplitude (along z)} such that field = sum amplitude * exp(i (2 pi f t + r a))"""
    full = fld.full
    nt, na = full.shape[:2]
    t = np.arange(nt) / (nt * f0)
    a = np.arange(na) * 2 * np.pi / na
    out = {}
    top = np.max(np.abs(full))
    for k in range(-((nt - 1) // 2), (nt - 1) // 2 + 1):
        et = np.exp(-2j * np.pi * k * f0 * t)
        for r in range(-((na - 1) // 2), (na - 1) // 2 + 1):
            c = np.tensordot(np.outer(et, np.exp(-1j * r * a)), full, axes=((0, 1), (0, 1))) / (nt * na)
            if np.max(np.abs(c)) > 1e-9 * top:
                out[(k * f0, r)] = c
    return out


def shift(q, speed):
    """Harmonics in the new referential, equal ones summed"""
    out = []
    for (f, r), c in q.items():
        g = f + r * speed / 60
        for o in out:
            if o[1] == r and abs(o[0] - g) < 1e-6:
                o[2] = o[2] + c
                break
        else:
            out.append([g, r, c])
    return out


def at(har, t, a, is_real):
    """Field at times t and angles a"""
    v = sum(np.multiply.outer(np.exp(1j * (2 * np.pi * f * t + r * a)), c) for f, r, c in har)
    return v.real if is_real else v


def compare(case, res, sym, har, is_real, top, what):
    """Rows of an answered spectrum are the harmonics har"""
    f, w, v = np.asarray(res["freqs"]), np.asarray(res["wavenumber"]), np.asarray(res[sym])
    case.true(v.shape[:2] == (len(f), len(w)), what + ": shape", got=v.shape, freqs=f, wavenumber=w)
    case.true(np.all(np.diff(f) > 1e-7), what + ": frequencies increasing", got=f)
    exp = np.zeros(v.shape, dtype=complex)
    for g, r, c in har:
        if is_real and g < -1e-7:
            continue
        k = 2.0 if is_real and g > 1e-7 else 1.0
        i = np.flatnonzero(np.abs(f - g) < 2e-6 + 1e-9 * abs(g))
        j = np.flatnonzero(np.abs(w - r) < 1e-9)
        if np.max(np.abs(c)) < 1e-6 * top and (len(i) != 1 or len(j) != 1):
            continue
        case.true(len(i) == 1 and len(j) == 1, what + ": harmonic found", harmonic=(g, r), amplitude=c, freqs=f, wavenumber=w)
        exp[i[0], j[0]] += k * c.reshape(v.shape[2:])
    if is_real:
        case.true(np.min(f) >= -1e-7, what + ": only positive frequencies of a real field", got=f)
    case.eq(v, exp, what + ": amplitudes", rtol=0, atol=1e-8 * top)


def zreq(fld):
    return ["z"] if len(fld.axes) > 2 else []


def check_spectrum(case, R, fld, har, what):
    top = np.max(np.abs(fld.values))
    case.true(type(R).__name__ == "DataFreq", what + ": type", got=type(R).__name__)
    case.true((R.name, R.symbol, R.unit, R.is_real) == (fld.name, fld.symbol, fld.unit, fld.is_real), what + ": name, symbol, unit, real flag", got=(R.name, R.symbol, R.unit, R.is_real))
    res = case.lib(R.get_along, "freqs", "wavenumber", *zreq(fld), is_squeeze=False)
    compare(case, res, fld.symbol, har, fld.is_real, top, what)
    if zreq(fld):
        case.eq(np.atleast_1d(res["z"]), fld.ax("z").full, what + ": axis z")


def freq_data(fld, f0):
    """The field stored by its harmonics"""
    q = quadrants(fld, f0)
    fs = sorted(set(round(f / f0) for f, r in q if f >= 0 or not fld.is_real) | {0})
    rs = sorted(set(r for f, r in q) | set(-r for f, r in q) | {0})
    shape = np.shape(list(q.values())[0]) if q else fld.full.shape[2:]
    v = np.zeros((len(fs), len(rs)) + tuple(shape), dtype=complex)
    for (f, r), c in q.items():
        k = round(f / f0)
        if k in fs:
            v[fs.index(k), rs.index(r)] = c * (2 if fld.is_real and k > 0 else 1)
    axes = [Data1D(name="freqs", unit="Hz", values=np.array(fs) * f0), Data1D(name="wavenumber", unit="dimless", values=np.array(rs, dtype=float))]
    if zreq(fld):
        axes.append(fld.ax("z").build())
        v = np.take(v, range(len(fld.ax("z").stored)), axis=2) if fld.ax("z").kind != "pat" else v[:, :, first_index(fld.ax("z"))]
    return DataFreq(name=fld.name, symbol=fld.symbol, unit=fld.unit, axes=axes, values=v, is_real=fld.is_real)


def first_index(z):
    """Positions of the stored samples of a pattern in the whole axis"""
    idx = np.asarray(z.rebuild)
    return [int(np.flatnonzero(idx == i)[0]) for i in range(len(z.stored))]


def spectral(case):
    rng = case.rng
    fld, f0 = make(rng)
    kind, speed = speed_of(rng, f0)
    stored = chance(rng, 0.4)
    q = quadrants(fld, f0)
    D = case.lib(freq_data, fld, f0) if stored else case.lib(fld.build)
    kw = {"atol": pick(rng, [0, 1e-9, 1e-12])} if chance(rng, 0.5) else {}
    case.log(fld, "stored in frequency" if stored else "stored in time")
    case.log("change_referential", speed, kw)
    R = case.lib(D.change_referential, speed, False, **kw)[0]
    har = shift(q, speed)
    check_spectrum(case, R, fld, har, "new referential")
    # field in the new referential at any instant and angle
    n = 4
    t, a = np.sort(rng.random(n)) / f0, np.sort(rng.random(n)) * 6.28
    T, A = np.meshgrid(t, a, indexing="ij")
    exp = at([(f, r, c) for (f, r), c in q.items()], T, A + 2 * np.pi * speed / 60 * T, fld.is_real)
    case.eq(at(har, T, A, fld.is_real), exp, "oracle")
    if fld.is_real:
        res = case.lib(R.get_along, "time=axis_data", "angle=axis_data", *zreq(fld), axis_data={"time": t, "angle": a}, is_squeeze=False)
        case.eq(res[fld.symbol], exp, "field in the new referential", rtol=1e-7, atol=1e-7 * np.max(np.abs(fld.values)))
    # and back
    B = case.lib(R.change_referential, -speed, False, **kw)[0]
    check_spectrum(case, B, fld, [[f, r, c] for (f, r), c in q.items()], "back in the first referential")
    case.run.count("spectral " + kind)
    case.sig(fld.cls(), kind, stored)


def turn(v, i, alpha, per):
    """Row i of a one-period waveform, at angles alpha (whole turn of the period per)"""
    row = v[i]
    n = len(row)
    x = np.mod(alpha, per) / per * n
    j = np.floor(x + 1e-12).astype(int)
    d = (x - j).reshape([-1] + [1] * (row.ndim - 1))
    return row[j % n] * (1 - d) + row[(j + 1) % n] * d


def one_period(x, v, axis):
    if x.sym == "antiperiod":
        return np.concatenate([v, -v], axis=axis)
    return v


def waveform_ref(fld, speed):
    """Stored field on one period in time and angle, in the new referential"""
    t, a = fld.axes[:2]
    v = one_period(a, one_period(t, fld.values, 0), 1)
    per = 2 * np.pi / (a.n if a.sym == "period" else a.n / 2 if a.sym == "antiperiod" else 1)
    na = v.shape[1]
    alpha = np.arange(na) * per / na
    tt = t.oneperiod
    return np.stack([turn(v, i, alpha + 2 * np.pi * speed / 60 * tt[i], per) for i in range(len(tt))]), tt, alpha


def waveform(case):
    rng = case.rng
    fld, f0 = make(rng, cplx=0.0, smooth=False)
    kind, speed = speed_of(rng, f0)
    D = case.lib(fld.build)
    sym = {}
    if fld.axes[0].sym == "antiperiod" and kind == "zero":
        sym = {"antiperiod": fld.axes[0].n}
    elif fld.axes[0].sym == "period" and kind in ("zero", "line"):
        sym = {"period": fld.axes[0].n}
    case.log(fld)
    case.log("change_referential waveform", speed, sym)
    given = dict(sym)
    R = case.lib(D.change_referential, speed, True, sym_t_new=sym)[0] if sym or chance(rng, 0.5) else case.lib(D.change_referential, speed, True)[0]
    case.true(sym == given, "symmetries given by the caller unchanged", got=sym)
    v, tt, alpha = waveform_ref(fld, speed)
    case.true(type(R).__name__ == "DataTime", "type", got=type(R).__name__)
    case.true((R.name, R.symbol, R.unit) == (fld.name, fld.symbol, fld.unit), "name, symbol, unit", got=(R.name, R.symbol, R.unit))
    res = case.lib(R.get_along, "time[oneperiod]", "angle[oneperiod]", *zreq(fld), is_squeeze=False)
    exp = v if not zreq(fld) else fld.ax("z").expand(v, 2)
    case.eq(res[fld.symbol], exp, "waveform in the new referential", rtol=1e-7)
    case.eq(res["time"], tt, "times")
    case.eq(res["angle"], alpha, "angles", atol=1e-9)
    if zreq(fld):
        case.eq(np.atleast_1d(res["z"]), fld.ax("z").full, "axis z")
    res = case.lib(R.get_along, "time", "angle", is_squeeze=False)
    case.eq(res["angle"], fld.ax("angle").full, "whole turn of angles", atol=1e-9)
    w = exp if fld.ax("angle").sym is None else np.concatenate([exp] * (fld.ax("angle").n if fld.ax("angle").sym == "period" else fld.ax("angle").n // 2), axis=1)
    w = w[:, :, :1] if zreq(fld) else w
    if sym:
        w = np.concatenate([w] * (fld.axes[0].n if fld.axes[0].sym == "period" else fld.axes[0].n // 2), axis=0)
        case.eq(res["time"], fld.axes[0].full, "whole times")
    case.eq(res[fld.symbol], w, "whole waveform in the new referential", rtol=1e-7)
    case.run.count("waveform " + kind)
    case.sig(fld.cls(), kind, bool(sym))


def grid(case):
    """Rotations by whole angle steps: exact in both domains, and undone by the opposite speed"""
    rng = case.rng
    fld, f0 = make(rng, cplx=0.0, sym_t=False, nmin=4)
    nt, na = len(fld.axes[0].stored), fld.full.shape[1]
    m = int(rng.integers(-3, 4))
    # m angle steps per time step
    speed = 60.0 * m * nt * f0 / na
    D = case.lib(fld.build)
    case.log(fld)
    case.log("change_referential", speed, ":", m, "angle steps per time step")
    exp = np.stack([np.roll(fld.full[i], -m * i, axis=0) for i in range(nt)])
    R = case.lib(D.change_referential, speed, True)[0]
    res = case.lib(R.get_along, "time", "angle", *zreq(fld), is_squeeze=False)
    case.eq(res[fld.symbol], exp, "waveform rotated by whole steps", rtol=1e-6)
    B = case.lib(R.change_referential, -speed, True)[0]
    res = case.lib(B.get_along, "time", "angle", *zreq(fld), is_squeeze=False)
    case.eq(res[fld.symbol], fld.full, "waveform back", rtol=1e-6)
    S = case.lib(D.change_referential, speed, False)[0]
    # all instants but the first: on a whole regular grid the highest line would be read as the sampling limit
    ax = {"time": fld.axes[0].full[1:], "angle": fld.axes[1].full}
    res = case.lib(S.get_along, "time=axis_data", "angle=axis_data", *zreq(fld), axis_data=ax, is_squeeze=False)
    case.eq(res[fld.symbol], exp[1:], "spectrum rotated by whole steps", rtol=1e-7, atol=1e-7 * np.max(np.abs(fld.values)))
    case.sig(fld.cls(), m)


def vector(case):
    """Every component of a vector field"""
    rng = case.rng
    base, f0 = make(rng, cplx=0.0)
    comps = pick(rng, [["radial"], ["radial", "tangential"], ["tangential", "radial"], ["radial", "tangential", "axial"]])
    flds = {}
    for c in comps:
        v = base.values * 1.0
        kind = pick(rng, ["same", "noise", "line", "line", "zero"])
        if kind == "zero" and not any(np.any(f.values) for f in flds.values()) and c == comps[-1]:
            kind = "same"
        if kind == "noise":
            v = v[::-1] * 1.5 if base.axes[0].sym is None else -2.0 * v
        elif kind == "line":
            # one harmonic only
            v = np.zeros_like(v)
            for k in (0, 1):
                q = quadrants(base, f0)
                if q:
                    (f, r) = sorted(q)[int(rng.integers(len(q)))]
                    T, A = np.meshgrid(base.axes[0].stored, base.axes[1].stored, indexing="ij")
                    h = np.cos(2 * np.pi * f * T + r * A + 0.3)
                    v = v + h.reshape(h.shape + (1,) * (v.ndim - 2))
        elif kind == "zero":
            v = np.zeros_like(v)
        flds[c] = Fld(base.axes, v, symbol="B_" + c[0], unit=base.unit)
    axes = [a.build() for a in base.axes]
    kind, speed = speed_of(rng, f0)
    V = case.lib(lambda: VectorField(name="field", symbol="B", components={c: f.build() for c, f in flds.items()}))
    wave = chance(rng, 0.4)
    kw = {"atol": pick(rng, [0, 1e-9])} if chance(rng, 0.4) else {}
    case.log(base, {c: float(np.max(np.abs(f.values))) for c, f in flds.items()})
    t = base.axes[0]
    if wave and t.sym is not None and (kind == "zero" or (kind == "line" and t.sym == "period")):
        kw["sym_t_new"] = {t.sym: t.n}
    case.log("vector change_referential", speed, "waveform" if wave else "spectrum", kw)
    W = case.lib(V.change_referential, speed, wave, **kw)
    case.true(type(W).__name__ == "VectorField" and list(W.components) == comps, "components", got=list(W.components))
    case.true((W.name, W.symbol) == ("field", "B"), "name and symbol", got=(W.name, W.symbol))
    for c, f in flds.items():
        R = W.components[c]
        if wave:
            v, tt, alpha = waveform_ref(f, speed)
            res = case.lib(R.get_along, "time[oneperiod]", "angle[oneperiod]", *zreq(f), is_squeeze=False)
            case.eq(res[f.symbol], v if not zreq(f) else f.ax("z").expand(v, 2), "waveform of %s" % c, rtol=1e-7)
            if "sym_t_new" in kw:
                res = case.lib(R.get_along, "time", "angle[oneperiod]", is_squeeze=False)
                case.eq(res["time"], t.full, "whole times of %s" % c)
                n = t.n if t.sym == "period" else t.n // 2
                case.eq(res[f.symbol], np.concatenate([v if v.ndim < 3 else (f.ax("z").expand(v, 2) if zreq(f) else v)[:, :, :1]] * n, axis=0), "whole waveform of %s" % c, rtol=1e-7)
        else:
            check_spectrum(case, R, f, shift(quadrants(f, f0), speed), c)
    if not wave:
        U = case.lib(W.change_referential, -speed, False, **kw)
        for c, f in flds.items():
            check_spectrum(case, U.components[c], f, [[g, r, x] for (g, r), x in quadrants(f, f0).items()], "%s back" % c)
    case.sig(base.cls(), kind, wave, tuple(comps))


SCENARIOS = [
    ("spectral", spectral, 700, 7800),
    ("waveform", waveform, 550, 6500),
    ("grid", grid, 350, 3900),
    ("vector", vector, 400, 5200),
]
