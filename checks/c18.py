"""C18: leakage filtering"""
import numpy as np

from checks.c07 import one_turn
from mon.gen import Fld, any_axis, axis_1d, chance, comp_axis, lin_axis, pick, rnd
from SciDataTool import VectorField

RULE = (
    "random sums of components at 1 to 6 frequencies (zero included or not, on or between the regular lines, separated by more "
    "than the resolution) sampled on odd or even numbers of instants, alone or with angle (plain, periodic, antiperiodic, odd "
    "and even), z (plain, pattern, periodic, antiperiodic) or labels; filtered frequencies and complex amplitudes compared with the "
    "amplitudes the signal was built from; distinct = axis classes x number of frequencies x on/off grid"
)


def frequencies(rng, n, df, on):
    """Increasing frequencies below the sampling limit, separated (also from their opposites) by more than df"""
    top = (n - 1) // 2
    slots = list(range(0, top))
    m = int(rng.integers(1, min(7, max(2, top))))
    out = []
    for s in sorted(rng.permutation(slots)[:m]):
        d = 0.0 if on or s == 0 else pick(rng, [0.0, 0.5, rnd(rng, 0.02, 0.9, 3), 1e-5])
        if s == 0 and not on and chance(rng, 0.5):
            d = rnd(rng, 0.55, 0.95, 3)
        f = (s + d) * df
        if out and f - out[-1] <= 1.02 * df:
            continue
        out.append(f)
    return np.array(out)


def asked(rng, f):
    """The frequencies as given by the caller: some or all of the opposites can be listed too"""
    if not chance(rng, 0.3):
        return f.copy()
    return np.unique(np.concatenate([f, [-x for x in f if chance(rng, 0.6)]]) + 0.0)


def make(rng, cplx=0.1):
    n = int(rng.integers(5, 22))
    T = pick(rng, [1.0, 0.02, 0.3, 5.0])
    s = pick(rng, [None, None, None, "period", "antiperiod"])
    k = 1 if s is None else int(rng.integers(2, 4)) if s == "period" else int(2 * rng.integers(1, 3))
    # a periodic window only holds the frequencies of its period
    t = (lin_axis if chance(rng, 0.6) else axis_1d)(rng, "time", n, 0.0, step=T / (n * k))
    t.sym, t.n = s, k
    axes = [t]
    if chance(rng, 0.55):
        axes.append(one_turn(rng, any_axis(rng, "angle", sym=pick(rng, [None, None, "period", "antiperiod"]), uniform=True, start=0.0, n=int(rng.integers(2, 9)))))
    if chance(rng, 0.5):
        axes.append(any_axis(rng, "z", sym=pick(rng, [None, "pattern", "period", "antiperiod"])))
    if len(axes) < 3 and chance(rng, 0.15):
        axes.append(comp_axis(rng))
    nfull = n * k
    df = 1.0 / T
    if s is None:
        f = frequencies(rng, nfull, df, chance(rng, 0.3))
    else:
        # harmonics of the period (odd ones for antiperiods)
        top = (nfull - 1) // 2
        h = [i for i in range(top) if (i % k == 0 if s == "period" else i % k == k // 2)]
        # but the last line, whose rounding decides whether it is in the range
        h = h[:-1] if len(h) > 1 else h
        f = np.array(sorted(rng.permutation(h)[: int(rng.integers(1, 5))])) * df
    rs = [None]
    if len(axes) > 1 and axes[1].name == "angle":
        a = axes[1]
        na = len(a.stored) * a.n
        q = range(-((na - 1) // 2), (na - 1) // 2 + 1)
        if a.sym == "period":
            q = [r for r in q if r % a.n == 0]
        elif a.sym == "antiperiod":
            q = [r for r in q if r % a.n == a.n // 2]
        rs = list(q)
    other = axes[2:] if rs != [None] else axes[1:]
    return axes, f, rs, other, df, not chance(rng, cplx)


def amplitudes(rng, f, rs, other, real):
    shape = tuple(len(x.stored) for x in other)
    X = {}
    for g in f:
        for r in rs:
            if r is not None and chance(rng, 0.4):
                continue
            X[(g, r)] = rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    if real:
        for r in rs:
            if (0.0, r) in X:
                if r in (None, 0):
                    X[(0.0, r)] = X[(0.0, r)].real + 0j
                elif (0.0, -r) in X:
                    X[(0.0, -r)] = np.conj(X[(0.0, r)])
                else:
                    del X[(0.0, r)]
    return X


def signal(axes, X, real):
    t = axes[0].stored
    shape = tuple(len(a.stored) for a in axes)
    v = np.zeros(shape, dtype=complex)
    for (g, r), c in X.items():
        b = np.exp(2j * np.pi * g * t)
        if r is not None:
            b = np.multiply.outer(b, np.exp(1j * r * axes[1].stored))
        v += np.multiply.outer(b, c)
    return v.real.copy() if real else v


def compare(case, R, sym, axes, f, rs, other, X, real, what):
    case.true(type(R).__name__ == "DataFreq", what + ": type", got=type(R).__name__)
    case.true(bool(R.is_real) == real, what + ": real flag", got=R.is_real)
    names = ["freqs"] + (["wavenumber"] if rs != [None] else [])
    case.true([x.name for x in R.get_axes()] == names + [x.name for x in other], what + ": axes", got=[x.name for x in R.get_axes()])
    res = case.lib(R.get_along, *(names + [x.name for x in other]), is_squeeze=False)
    v, g = np.asarray(res[sym]), np.asarray(res["freqs"])
    lines = f if real else np.unique(np.concatenate([f, -f]))
    case.eq(g, lines, what + ": frequencies", rtol=1e-9)
    exp = np.zeros(v.shape, dtype=complex)
    for (q, r), c in X.items():
        for i, x in enumerate(other):
            c = x.expand(c, i)
        i = int(np.flatnonzero(np.abs(g - q) <= 1e-9 * (1 + abs(q)))[0])
        if r is None:
            exp[i] += c
        else:
            j = np.flatnonzero(np.abs(np.asarray(res["wavenumber"]) - r) < 1e-9)
            case.true(len(j) == 1, what + ": wavenumber found", r=r, got=res["wavenumber"])
            exp[i, j[0]] += c
    case.eq(v, exp, what + ": amplitudes", rtol=0, atol=1e-6)
    for x in other:
        if x.labels is None:
            case.eq(np.atleast_1d(res[x.name]), x.full, what + ": axis " + x.name)
        else:
            case.eq(np.asarray(res[x.name]), np.asarray(x.labels), what + ": labels")


def data(case):
    rng = case.rng
    axes, f, rs, other, df, real = make(rng)
    X = amplitudes(rng, f, rs, other, real)
    fld = Fld(axes, signal(axes, X, real), unit=pick(rng, ["T", "N"]), is_real=real)
    D = case.lib(fld.build)
    given = asked(rng, f)
    keep = given.copy()
    case.log(fld)
    case.log("filter_spectral_leakage", given, "resolution", df)
    if chance(rng, 0.25):
        # what was computed for another field on the same axes can be given again
        X2 = amplitudes(rng, f, rs, other, real)
        E = case.lib(Fld(axes, signal(axes, X2, real), symbol="Y", is_real=real).build)
        case.log("after another field")
        out = case.lib(E.filter_spectral_leakage, given.copy(), is_return_calc_data=True)
        compare(case, out[0], "Y", axes, f, rs, other, X2, real, "first field")
        R = case.lib(D.filter_spectral_leakage, out[5], out[1], out[2], out[3], out[4])
    else:
        R = case.lib(D.filter_spectral_leakage, given)
    case.exact(given, keep, "frequencies of the caller")
    case.true((R.name, R.symbol, R.unit) == (fld.name, fld.symbol, fld.unit), "name, symbol, unit", got=(R.name, R.symbol, R.unit))
    compare(case, R, fld.symbol, axes, f, rs, other, X, real, "filtered")
    off = bool(np.any(np.abs(f / df - np.round(f / df)) > 1e-9))
    case.run.count("off grid" if off else "on grid")
    case.sig(fld.cls(), len(f), off, f[0] == 0)


def vector(case):
    rng = case.rng
    axes, f, rs, other, df, real = make(rng, cplx=0)
    comps = pick(rng, [["radial", "tangential"], ["tangential", "radial", "axial"], ["axial"]])
    Xs = {c: amplitudes(rng, f, rs, other, True) for c in comps}
    V = case.lib(lambda: VectorField(name="F", symbol="B", components={c: Fld(axes, signal(axes, Xs[c], True), symbol="B_" + c[0], unit="T").build() for c in comps}))
    case.log(Fld(axes, signal(axes, Xs[comps[0]], True)), comps)
    given = asked(rng, f)
    case.log("vector filter_spectral_leakage", given, "resolution", df)
    W = case.lib(V.filter_spectral_leakage, given)
    case.true(list(W.components) == comps, "components", got=list(W.components))
    for c in comps:
        compare(case, W.components[c], "B_" + c[0], axes, f, rs, other, Xs[c], True, c)
    case.sig([a.cls() for a in axes], len(f), tuple(comps))


SCENARIOS = [("data", data, 1200, 24000), ("vector", vector, 500, 10500)]
