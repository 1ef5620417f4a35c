"""C09: transforms on irregular samplings or lines equal the defining Fourier sum"""
import contextlib
import io

import numpy as np

from checks.c07 import fourier_field, one_turn
from checks.common import field_unit, shuffled
from mon.gen import AXUNITS, Ax, Fld, any_axis, axis_1d, chance, comp_axis, pick, ratio, rnd, values_for
from mon.ref import TR, _dft, dft_space, dft_time, make_req, extract

RULE = (
    "random field with irregular (or shifted) time and/or angle, or regular ones asked at lines outside the regular grid, "
    "lines given as user data or in the text, in any compatible unit, of any sign, with other axes kept, extracted or "
    "transformed by the usual transform; and spectra with arbitrary lines evaluated at arbitrary points; compared with "
    "the defining sums evaluated term by term; distinct = axis classes x which axes are irregular x sign of lines x form"
)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def axes_of(rng, irregular):
    """Field axes; names in irregular have an irregular or shifted sampling"""
    names = pick(rng, [["time"], ["angle"], ["time", "angle"], ["time", "angle"]])
    names = [n for n in names]
    for n in irregular:
        if n not in names:
            names.append(n)
    names = shuffled(rng, names + pick(rng, [[], [], ["z"], ["speed"], ["z", "load"]]))
    axes = []
    for nm in names:
        if nm in irregular:
            n = int(rng.integers(2, 10))
            if chance(rng, 0.3):
                # regular but never zero
                a = axis_1d(rng, nm, n, start=pick(rng, [0.05 + 0.3 * rng.random(), 10 ** -rnd(rng, 1, 5), 0.05 + 0.3 * rng.random(), 1.0 + 9 * rng.random(), -3.0 + 1.9 * rng.random()]))
            else:
                s = pick(rng, [0.0, 0.0, 0.1 * rng.random(), 1.0 + 9 * rng.random(), -3.0 * rng.random()])
                a = axis_1d(rng, nm, max(n, 3), start=s, uniform=False)
            axes.append(a)
        elif nm in TR:
            a = any_axis(rng, nm, sym=pick(rng, [None, None, "period", "antiperiod"]), uniform=True, start=0.0)
            axes.append(one_turn(rng, a) if nm == "angle" else a)
        else:
            axes.append(any_axis(rng, nm, sym="pattern" if nm == "z" and chance(rng, 0.3) else None))
    if chance(rng, 0.1):
        axes.insert(int(rng.integers(len(axes) + 1)), comp_axis(rng))
    return axes


def some_lines(rng, name, n=None, sign=None):
    n = n or int(rng.integers(2, 7))
    sign = sign or pick(rng, ["pos", "pos", "zero", "any"])
    top = 9.0 if name == "freqs" else 6.0
    f = np.round(0.06 + top * rng.random(n), 3)
    if sign == "any":
        f = f * np.where(rng.random(n) < 0.5, -1, 1)
        f[0] = -abs(f[0])
    if sign == "zero":
        f[int(rng.integers(n))] = 0.0
    f = np.unique(f)
    if chance(rng, 0.2):
        f = f[::-1].copy()
    return f, sign


def fourier_sum(v, x, f, axis, is_angle):
    """Defining sum over the samples divided by their number, doubled for non-zero lines when none is negative"""
    om = f if is_angle else 2 * np.pi * f
    E = np.array([[np.exp(-1j * o * xx) for xx in x] for o in om]) / len(x)
    w = np.moveaxis(np.tensordot(E, v, axes=(1, axis)), 0, axis)
    if np.all(f >= 0):
        k = np.where(f == 0, 1.0, 2.0)
        w = w * k.reshape([-1 if j == axis else 1 for j in range(w.ndim)])
    return w


def request(rng, nm, f, text_ok):
    """Text and user data requesting the lines f"""
    unit, sc = "", 1.0
    if nm == "freqs" and chance(rng, 0.3):
        unit, sc = "{kHz}", 1e-3
    if text_ok and len(f) >= 3 and chance(rng, 0.4):
        return "%s=[%s]%s" % (nm, ",".join(repr(float(x * sc)) for x in f), unit), None, sc
    return "%s=axis_data%s" % (nm, unit), f * sc, sc


def forward(case, irregular, off):
    """irregular: sampling irregular; off: regular sampling with lines out of the grid"""
    rng = case.rng
    axes = axes_of(rng, irregular)
    real = not chance(rng, 0.2)
    for n in off:
        # lines outside the grid are only compared on axes stored without symmetry
        for i, a in enumerate(axes):
            if a.name == n:
                b = any_axis(rng, n, uniform=True, start=0.0, one=0.0)
                axes[i] = one_turn(rng, b) if n == "angle" else b
    fld = Fld(axes, values_for(rng, axes, "f" if real else "c"), unit=pick(rng, ["T", "A", "V", "N"]), is_real=real)
    names = fld.names()
    special = [n for n in list(irregular) + list(off) if n in names]
    usual = [n for n in names if n in TR and n not in special and chance(rng, 0.7)]
    D = case.lib(fld.build)
    v = fld.full
    texts, data, lines, scales, signs = [], {}, {}, {}, []
    for i, a in enumerate(fld.axes):
        if a.name in special:
            f, s = some_lines(rng, TR[a.name])
            if a.name in irregular and chance(rng, 0.3):
                # lines of the regular grid with the same mean step
                n = len(a.stored)
                h = (np.max(a.stored) - np.min(a.stored)) / (n - 1)
                ks = np.unique(rng.integers(-((n - 1) // 2) if s == "any" else 0, n // 2 + 1, int(rng.integers(2, 7))))
                f = ks * (1.0 if a.name == "angle" else 1.0 / (n * h))
                s = "grid " + s
            if a.name in off:
                # at least two lines (a single one designates the closest line), one clearly outside the regular grid
                if len(f) == 1:
                    f = np.array([f[0], f[0] + 0.73 * np.sign(f[0] + 1e-9)])
                n = len(a.stored)
                df = 1.0 if a.name == "angle" else 1.0 / (n * (a.stored[1] - a.stored[0]))
                d = f / df - np.round(f / df)
                if np.max(np.abs(d)) < 0.05:
                    j = int(np.argmax(np.abs(f)))
                    f[j] += 0.37 * df * np.sign(f[j])
            signs.append(s)
            v = fourier_sum(v, a.stored, f, i, a.name == "angle")
            t, d, sc = request(rng, TR[a.name], f, True)
            texts.append(t)
            lines[TR[a.name]], scales[TR[a.name]] = f, sc
            if d is not None:
                data[TR[a.name]] = d
    # usual transforms of the regular axes
    sub = Fld(fld.axes, None, is_real=fld.is_real)
    for i, a in enumerate(fld.axes):
        if a.name in usual:
            v, ln = one_dft(v, a, i, fld.is_real)
            lines[TR[a.name]], scales[TR[a.name]] = ln, 1.0
            texts.append(TR[a.name])
        elif a.name not in special:
            if a.name in TR or chance(rng, 0.85):
                texts.append(a.name)
            else:
                v = np.take(v, [0], axis=i)
    args = shuffled(rng, texts)
    u, k = field_unit(rng, fld)
    case.log(fld)
    case.log("get_along", args, data, u)
    res = case.lib(quiet, D.get_along, *args, axis_data=data, unit=u, is_squeeze=False)
    case.eq(res[fld.symbol], v * k, "Fourier sum %s" % args, rtol=1e-8, atol=1e-9 * abs(k) * np.max(np.abs(fld.values)))
    for n in lines:
        case.eq(res[n], lines[n] * scales[n], "lines %s" % n, atol=1e-9)
    if chance(rng, 0.3):
        res = case.lib(quiet, D.get_magnitude_along, *args, axis_data=data, unit=u, is_squeeze=False)
        case.eq(res[fld.symbol], np.abs(v) * k, "magnitude of the Fourier sum %s" % args, rtol=1e-8, atol=1e-9 * abs(k) * np.max(np.abs(fld.values)))
    case.sig(fld.cls(), fld.is_real, special, usual, signs, sorted(data))


def one_dft(v, a, axis, is_real):
    """Usual transform of a regular axis: one-sided for the time of real data, two-sided otherwise"""
    n = len(a.oneperiod)
    w = np.take(v, range(n), axis=axis)
    x = np.arange(n) / n
    if a.name == "time":
        T = n * (a.oneperiod[1] - a.oneperiod[0]) if n > 1 else 1.0
        ks = np.arange(n // 2 + 1) if is_real else np.arange(n) - n // 2
        ln = ks / T if n > 1 else np.zeros(1)
    else:
        ks = np.arange(n) - n // 2
        p = a.n // 2 if a.sym == "antiperiod" else (a.n if a.sym == "period" else 1)
        ln = ks * float(p)
    if n == 1:
        ks = np.zeros(1)
    E = np.array([[np.exp(-2j * np.pi * k * xx) for xx in x] for k in ks]) / n
    w = np.moveaxis(np.tensordot(E, w, axes=(1, axis)), 0, axis)
    if a.name == "time" and is_real:
        w = w * np.where(ks == 0, 1.0, 2.0).reshape([-1 if j == axis else 1 for j in range(w.ndim)])
    return w, ln


def irregular(case):
    forward(case, pick(case.rng, [["time"], ["time"], ["angle"], ["time", "angle"]]), [])


def off_grid(case):
    forward(case, [], pick(case.rng, [["time"], ["angle"], ["time", "angle"]]))


def both(case):
    forward(case, *pick(case.rng, [(["time"], ["angle"]), (["angle"], ["time"])]))


def inverse(case):
    """Sum of arbitrary lines at arbitrary points"""
    rng = case.rng
    names = pick(rng, [["freqs"], ["wavenumber"], ["freqs", "wavenumber"]])
    names = shuffled(rng, names + pick(rng, [[], [], ["z"], ["speed"]]))
    axes, pts, texts, data, scale, how = [], {}, [], {}, {}, []
    for nm in names:
        if nm in TR.values():
            f, s = some_lines(rng, nm, n=int(rng.integers(3, 7)), sign=pick(rng, ["pos", "zero"]) if nm == "freqs" else None)
            f = np.sort(f)
            how.append(s)
            if len(f) > 2 and np.allclose(np.diff(f), np.diff(f)[0]):
                f[-1] += 0.317
            axes.append(Ax(nm, "Hz" if nm == "freqs" else "dimless", f))
            t = "time" if nm == "freqs" else "angle"
            m = int(rng.integers(2, 9))
            if chance(rng, 0.4):
                x = np.arange(m) * 0.07
                how.append("regular")
            else:
                x = np.sort(rng.random(m))
                how.append("irregular")
            un = pick(rng, AXUNITS["s" if t == "time" else "rad"])
            sc = ratio("s" if t == "time" else "rad", un)
            pts[t], scale[t] = x, sc
            data[t] = x * sc
            texts.append(t + "=axis_data" + ("" if sc == 1.0 else "{%s}" % un))
        else:
            axes.append(any_axis(rng, nm))
            texts.append(nm)
    real = not chance(rng, 0.3)
    fld = Fld(axes, values_for(rng, axes, "c"), unit="T", is_real=real)
    F = case.lib(fld.build)
    w = fld.full
    for i, a in enumerate(fld.axes):
        if a.name in TR.values():
            t = "time" if a.name == "freqs" else "angle"
            om = 2 * np.pi * a.stored if t == "time" else a.stored
            E = np.array([[np.exp(1j * o * xx) for o in om] for xx in pts[t]])
            w = np.moveaxis(np.tensordot(E, w, axes=(1, i)), 0, i)
    if real:
        w = w.real
    args = shuffled(rng, texts)
    case.log(fld)
    case.log("get_along", args, data)
    res = case.lib(quiet, F.get_along, *args, axis_data=data, is_squeeze=False)
    case.eq(res[fld.symbol], w, "sum of the lines at the points %s" % args, rtol=1e-8)
    for t in pts:
        case.eq(res[t], pts[t] * scale[t], "points")
    case.sig(fld.cls(), real, how)


def single_line(case):
    """One line far from the grid"""
    rng = case.rng
    nm = pick(rng, ["time", "angle"])
    # step of several units between the lines
    n = int(rng.integers(4, 12))
    if nm == "time":
        a = axis_1d(rng, "time", n, step=1.0 / (40 * n))
        df = 40.0
    else:
        a = axis_1d(rng, "angle", n, step=2 * np.pi / n)
        df = None
    if df is None:
        f = float(pick(rng, [n // 2 + 1, n // 2 + 3, n]))
        if chance(rng, 0.4):
            f = -f - 1
    else:
        f = df * int(rng.integers(0, n // 2)) + 2 + 36 * rng.random()
        if chance(rng, 0.3):
            f = -f
    o = any_axis(rng, "z")
    axes = [a, o] if chance(rng, 0.5) else [o, a]
    fld = Fld(axes, values_for(rng, axes, "f"))
    w = fourier_sum(fld.full, a.stored, np.array([f]), fld.index(nm), nm == "angle")
    D = case.lib(fld.build)
    t = "%s=%r" % (TR[nm], f)
    args = shuffled(rng, [t, "z"])
    case.log(fld)
    case.log("get_along", args)
    res = case.lib(quiet, D.get_along, *args, is_squeeze=False)
    case.eq(res[fld.symbol], w, "line %s" % args, rtol=1e-8)
    case.eq(res[TR[nm]], [f], "line")
    case.sig(fld.cls(), nm, f > 0)


SCENARIOS = [
    ("irregular", irregular, 1800, 24000),
    ("off_grid", off_grid, 1800, 24000),
    ("both", both, 600, 8000),
    ("inverse", inverse, 1400, 16000),
    ("single_line", single_line, 400, 4000),
]
