"""C14: spectra in 1/n octave bands"""
import math

import numpy as np

from checks.c13 import aweight, level
from checks.common import shuffled
from mon.gen import Ax, Fld, Norm_ref, any_axis, chance, lin_axis, pick, values_for
from mon.ref import spectrum

RULE = (
    "random spectra (stored or computed from a time signal, alone or with other axes at any position), resolution, range, n and "
    "frequency interval; bands, limits and correction recomputed line by line; distinct = n x number of bands x axis classes x "
    "kind of spectrum x level unit"
)

THIRD = [12.5, 16, 20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000, 12500, 16000, 20000]
ONE = [16, 31.5, 63, 125, 250, 500, 1000, 2000, 4000, 8000, 16000]


def centres(n, lo, hi):
    if n in (1, 3):
        return [float(c) for c in (ONE if n == 1 else THIRD) if lo <= c <= hi]
    out = set()
    for i in range(-11 * n, 6 * n):
        c = math.ceil(2000.0 * 2.0 ** (i / n)) / 2
        if lo <= c <= hi:
            out.add(c)
    return sorted(out)


def bands(v, f, n):
    """Band values of one spectrum (magnitudes), None if a line is exactly on a limit"""
    c = centres(n, f[0], f[-1])
    k = 2.0 ** (0.5 / n)
    lim = [x / k for x in c] + [c[-1] * k]
    df = f[1] - f[0]
    out = np.zeros(len(c))
    for b in range(len(c)):
        if any(abs(x - y) < 1e-7 * (1 + y) for x in f for y in (lim[b], lim[b + 1])):
            return c, None
        lines = [abs(v[i]) for i in range(len(f)) if lim[b] < f[i] < lim[b + 1]]
        if not lines:
            continue
        bw = lim[b + 1] - lim[b]
        q = bw / df
        if abs(q - round(q)) < 1e-9:
            return c, None
        s = math.sqrt(sum(x * x for x in lines))
        if math.floor(q) <= len(lines):
            s *= math.sqrt(bw / (df * len(lines)))
        out[b] = s
    return c, out


def make(rng):
    """Field, spectrum, lines, index of the frequency axis"""
    names = shuffled(rng, ["freqs"] + pick(rng, [[], [], ["load"], ["load", "speed"], ["z"]]))
    stored = chance(rng, 0.65)
    df = float(pick(rng, [0.5, 1.0, 2.5, 4.0, 10.0, 7.3, 33.0, 100.0]))
    nl = int(rng.integers(12, 400 if len(names) == 1 else 60))
    axes = []
    for nm in names:
        if nm != "freqs":
            axes.append(any_axis(rng, nm, maxn=4))
        elif stored:
            st = float(pick(rng, [0.0, 0.0, df, 5 * df, 37.0, 1300.0]))
            if chance(rng, 0.25):
                # Range starting and / or ending on a band centre
                c0, c1 = sorted(float(x) for x in rng.choice(pick(rng, [THIRD, ONE]), 2, replace=False))
                f = np.linspace(pick(rng, [0.0, c0, c0]), c1, nl)
                f[-1] = c1
                axes.append(Ax("freqs", "Hz", f))
            elif chance(rng, 0.7):
                axes.append(lin_axis(rng, "freqs", nl, st, step=df))
            else:
                axes.append(Ax("freqs", "Hz", st + df * np.arange(nl)))
        else:
            a = lin_axis(rng, "time", 2 * nl, 0.0, step=1 / (df * 2 * nl))
            if chance(rng, 0.4):
                a.sym, a.n = pick(rng, [("period", 3), ("antiperiod", 4), ("period", 2)])
            axes.append(a)
    fld = Fld(axes, values_for(rng, axes, pick(rng, ["f", "c"]) if stored else "f"), unit=pick(rng, ["Pa", "W", "N", "m/s2"]))
    if chance(rng, 0.3):
        # Lines in one part of the range only
        i = [a.name in ("freqs", "time") for a in axes].index(True)
        if stored:
            m = np.zeros(nl)
            a0 = int(rng.integers(nl))
            m[a0 : a0 + int(rng.integers(1, nl))] = 1
            fld.values = fld.values * m.reshape([-1 if j == i else 1 for j in range(len(axes))])
    if stored:
        i = fld.index("freqs")
        return fld, fld.full, fld.ax("freqs").stored, i
    v, lines = spectrum(fld, ["time"])
    return fld, v, lines["freqs"], fld.index("time")


def check(case):
    rng = case.rng
    fld, v, f, i = make(rng)
    n = int(pick(rng, [1, 1, 3, 3, 3, 6, 12, 2, 4, 5, 24, 48]))
    ref = 1.0
    if chance(rng, 0.5):
        ref = float(pick(rng, [2e-5, 1e-12, 0.5]))
        fld.norms = {"ref": lambda: Norm_ref(ref=ref)}
    text = pick(rng, ["freqs->1/%doct", "freqs{1/%doct}"]) % n
    g, w = f, v
    if chance(rng, 0.4):
        # Part of the spectrum
        a, b = sorted(int(x) for x in rng.integers(0, len(f), 2))
        if b - a >= 3:
            lo, hi = round(f[a] - 0.3 * (f[1] - f[0]), 6), round(f[b] + 0.3 * (f[1] - f[0]), 6)
            lo = max(lo, 0.0) if f[a] > 0 else -0.1
            g, w = f[a : b + 1], np.take(v, np.arange(a, b + 1), axis=i)
            text = text.replace("freqs", "freqs=[%r,%r]" % (lo, hi), 1)
    if not centres(n, g[0], g[-1]):
        return
    for x in (g[0], g[-1]):
        # A limit of the range can be a centre, only if it is exactly so
        if any(abs(c - x) < 1e-6 and (c != x or fld.axes[i].lin) for c in centres(n, g[0] - 1, g[-1] + 1)):
            return
        if x in centres(n, g[0], g[-1]):
            case.run.count("ranges limited by a band centre")
    args = [text]
    for j, ax in enumerate(fld.axes):
        if j != i:
            if chance(rng, 0.7):
                args.append(ax.name)
            else:
                w = np.take(w, [0], axis=j)
    w = np.abs(np.moveaxis(w, i, -1))
    # Components at the level of rounding errors are zero
    w[w < 1e-12 * max(np.max(np.abs(fld.values)), 1e-300)] = 0
    exp = np.empty(w.shape[:-1] + (len(centres(n, g[0], g[-1])),))
    for p in np.ndindex(w.shape[:-1]):
        c, b = bands(w[p], g, n)
        if b is None:
            return
        exp[p] = b
    exp = np.moveaxis(exp, -1, i)
    args = shuffled(rng, args)
    case.log(fld, "ref", ref)
    D = case.lib(fld.build)
    unit = pick(rng, ["SI", "SI", "dB", "dBA"])
    case.log(args, unit)
    res = case.lib(D.get_magnitude_along, *args, unit=unit, is_squeeze=False)
    case.eq(np.asarray(res["freqs"]), np.array(c), "band centres of %s" % text)
    tol = 1e-9 * np.max(np.abs(fld.values))
    if unit == "SI":
        case.eq(np.asarray(res[fld.symbol]), exp, "band values of %s" % args, rtol=1e-7, atol=tol)
        # Linearity
        k = float(pick(rng, [2.0, 1e-3, 17.5, 1e6]))
        fld.values = fld.values * k
        res2 = case.lib(case.lib(fld.build).get_magnitude_along, *args, is_squeeze=False)
        case.eq(np.asarray(res2[fld.symbol]), exp * k, "band values of the scaled field", rtol=1e-7, atol=tol * k)
    else:
        L = level(exp, fld.unit, ref)
        if unit == "dBA":
            L = L + aweight(c).reshape([-1 if j == i else 1 for j in range(exp.ndim)])
        ok = exp > 1e-6 * np.max(np.abs(fld.values))
        case.eq(np.where(ok, res[fld.symbol], 0), np.where(ok, L, 0), "band levels of %s" % args, atol=1e-6)
    case.run.count("bands compared", int(exp.size))
    case.run.count("bands without line", int(np.sum(exp == 0)))
    case.sig(n, len(c), fld.cls(), unit, i, "=[" in text)


SCENARIOS = [("bands", check, 1600, 27000)]
