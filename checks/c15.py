"""C15: sum and convolution of spectra"""
import numpy as np

from checks.common import shuffled
from mon.gen import Data1D, DataFreq, DataLinspace, DataND, Norm_ref, chance, pick

RULE = (
    "pairs of one-dimensional spectra with regular, irregular, shared, nearly equal (inside the tolerance) and zero frequencies, "
    "real, complex and single precision amplitudes, any tolerance and band; lines recomputed by products of pairs and signals "
    "compared at random times; malformed operands; distinct = operation x sizes x kind of frequencies x band x dtype"
)


def freqs(rng, n, tol, kind, dc):
    """n frequencies; multiples of 4 tol in general so that combinations are equal or well separated"""
    if kind == "regular":
        st = pick(rng, [1.0, 10.0, 12.5, 50.0])
        f = st * (np.arange(n) + (0 if dc else int(rng.integers(1, 3))))
    elif kind == "irregular":
        f = np.round(rng.permutation(4000)[:n] / 10.0 + 1, 1)
        if dc:
            f[0] = 0
    else:
        f = np.sort(rng.permutation(60)[:n]) * 25.0 + 25.0
        if dc:
            f[0] = 0
    return f


def spectrum(case, n, tol, kind, dc, jit):
    rng = case.rng
    f = freqs(rng, n, tol, kind, dc)
    lin = kind == "regular" and chance(rng, 0.6)
    if kind != "regular" and chance(rng, 0.5):
        f = np.sort(f)
    if jit and not lin:
        f = f + (rng.random(n) - 0.5) * 0.2 * tol * (f != 0)
    dt = pick(rng, ["c", "c", "f", "c64"])
    a = rng.standard_normal(n) * 10.0 ** rng.integers(-2, 3)
    if dt != "f":
        a = a + 1j * rng.standard_normal(n)
    if dt == "c64":
        a = a.astype(np.complex64)
    ax = (
        DataLinspace(name="freqs", unit="Hz", initial=f[0], step=f[1] - f[0] if n > 1 else 1.0, number=n)
        if lin
        else Data1D(name="freqs", unit="Hz", values=f.copy())
    )
    sym = pick(rng, ["A", "B_r", "p"])
    S = case.lib(DataFreq, name="spectrum " + sym, symbol=sym, unit=pick(rng, ["T", "A", "Pa"]), axes=[ax], values=a.copy(), normalizations={"ref": Norm_ref(ref=3.0)} if chance(rng, 0.5) else {})
    return S, f, a.astype(complex), "%s%s%s" % (kind, "-lin" if lin else "", dt)


def cluster(lines, tol):
    """lines: list of (frequency, amplitude) -> merged and sorted"""
    lines = sorted(lines, key=lambda x: x[0])
    out = []
    for f, a in lines:
        if out and f - out[-1][2] < 0.9 * tol:
            out[-1][1] += a
            out[-1][2] = f
            out[-1][3] = max(out[-1][3], abs(a))
        else:
            out.append([f, a, f, abs(a)])
    return out


def compare(case, R, exp, tol, scale, what):
    g = case.lib(R.axes[0].get_values)
    v = np.asarray(R.values)
    case.true(len(R.axes) == 1 and R.axes[0].name == "freqs" and type(R).__name__ == "DataFreq", "type of the " + what)
    case.true(np.all(np.diff(g) > 0), "frequencies of the %s increase" % what, got=g)
    case.true(len(g) == len(exp), "number of lines of the " + what, got=g, expected=[e[0] for e in exp])
    case.true(v.shape == g.shape, "shape of the values of the " + what)
    for i, (f, a, f2, m) in enumerate(exp):
        case.true(f - 1e-9 * (1 + abs(f)) <= g[i] <= f2 + 1e-9 * (1 + abs(f)), "frequency of the " + what, got=g[i], expected=f)
    case.eq(v.astype(complex), np.array([e[1] for e in exp]), "amplitudes of the " + what, rtol=2e-6, atol=1e-6 * scale)


def meta(case, fn, S1, other, kw, what):
    """Call with requested or default metadata"""
    rng = case.rng
    req = {}
    if chance(rng, 0.5):
        req["name"] = "result"
    if chance(rng, 0.5):
        req["symbol"] = "Z"
    if chance(rng, 0.5):
        req["unit"] = "N"
    if chance(rng, 0.5):
        req["normalizations"] = {"ref": Norm_ref(ref=11.0)}
    R = case.lib(fn, other, **kw, **req)
    case.same(R.name, req.get("name", S1.name), "name of the " + what)
    case.same(R.symbol, req.get("symbol", S1.symbol), "symbol of the " + what)
    case.same(R.unit, req.get("unit", S1.unit), "unit of the " + what)
    n = req.get("normalizations", S1.normalizations)
    case.same(sorted(R.normalizations), sorted(n), "normalizations of the " + what)
    for k in n:
        case.same(R.normalizations[k].ref, n[k].ref, "reference of the " + what)
    return R


def setup(case):
    rng = case.rng
    tol = pick(rng, [None, 1e-4, 1e-3, 1e-2])
    t = tol or 1e-4
    kind = pick(rng, ["regular", "irregular", "multiples"])
    jit = chance(rng, 0.4)
    n1, n2 = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    S1, f1, a1, k1 = spectrum(case, n1, t, kind, chance(rng, 0.5), jit)
    S2, f2, a2, k2 = spectrum(case, n2, t, kind, chance(rng, 0.5), jit)
    if chance(rng, 0.1):
        S2, f2, a2, k2 = S1, f1, a1, k1
    case.log("f1", f1.tolist(), "a1", a1.tolist())
    case.log("f2", f2.tolist(), "a2", a2.tolist(), "tol", tol)
    return S1, f1, a1, S2, f2, a2, t, {} if tol is None else {"tol_freq": tol}, (k1, k2, n1, n2, jit, t)


def signal(f, a, t):
    return np.sum(np.real(np.asarray(a)[:, None] * np.exp(2j * np.pi * np.asarray(f)[:, None] * t[None, :])), axis=0)


def snapshot(*objs):
    return [(np.array(o.values), np.array(o.axes[0].get_values()), o.name, o.symbol, o.unit) for o in objs]


def total(case):
    S1, f1, a1, S2, f2, a2, tol, kw, sig = setup(case)
    scale = max(np.max(np.abs(a1)), np.max(np.abs(a2)))
    before = snapshot(S1, S2)
    R = meta(case, S1.sum, S1, S2, kw, "sum")
    compare(case, R, cluster(list(zip(f1, a1)) + list(zip(f2, a2)), tol), tol, scale, "sum")
    t = case.rng.random(6) * 0.1 * min(1, 1e-4 / tol)
    case.eq(signal(R.axes[0].get_values(), R.values, t), signal(f1, a1, t) + signal(f2, a2, t), "signal of the sum", atol=2e-3 * scale)
    case.true(all(np.array_equal(x, y) for p, q in zip(before, snapshot(S1, S2)) for x, y in zip(p, q)), "operands unchanged")
    case.sig("sum", *sig)


def product(case):
    rng = case.rng
    S1, f1, a1, S2, f2, a2, tol, kw, sig = setup(case)
    scale = np.max(np.abs(a1)) * np.max(np.abs(a2))
    lines = []
    for x, A in zip(f1, a1):
        for y, B in zip(f2, a2):
            if x == 0 and y == 0:
                lines.append((0.0, A.real * B.real))
            elif x == 0:
                lines.append((y, A.real * B))
            elif y == 0:
                lines.append((x, A * B.real))
            else:
                lines.append((x + y, A * B / 2))
                d = x - y
                if abs(d) < 0.5 * tol:
                    lines.append((0.0, (A * np.conj(B)).real / 2))
                elif d > 0:
                    lines.append((d, A * np.conj(B) / 2))
                else:
                    lines.append((-d, np.conj(A) * B / 2))
    allc = cluster(lines, tol)
    lo, hi = None, np.inf
    how = pick(rng, ["all", "all", "zero", "band", "low", "high"])
    if how == "zero":
        lo = 0
    mids = [0.5 * (p[2] + q[0]) for p, q in zip(allc[:-1], allc[1:]) if q[0] - p[2] > 2 * tol]
    if how != "all" and how != "zero" and mids:
        if how in ("band", "low"):
            lo = float(pick(rng, mids))
        if how in ("band", "high"):
            hi = float(pick(rng, [m for m in mids if lo is None or m > lo] or [np.inf]))
    if how in ("band", "low", "high") and chance(rng, 0.4) and all(x == np.round(2 * x) / 2 for x in list(f1) + list(f2)):
        # limits exactly on lines, which belong to the band
        on = [c[0] for c in allc if c[0] > 0]
        if on and how != "high":
            lo = float(pick(rng, on))
        if on and how != "low":
            hi = float(pick(rng, [x for x in on if lo is None or x >= lo] or [np.inf]))
    if lo is not None:
        kw["f_min"] = lo
    if hi < np.inf:
        kw["f_max"] = hi
    exp = [c for c in allc if c[0] >= (lo or 0) - tol and c[0] <= hi]
    case.log("conv", kw)
    before = snapshot(S1, S2)
    R = meta(case, S1.conv, S1, S2, kw, "product")
    # combinations at zero frequency computed by difference are within rounding of 0
    for c in exp:
        if c[0] == 0.0:
            c[0], c[2] = -0.5 * tol, 0.5 * tol
    compare(case, R, exp, tol, scale, "product")
    if how in ("all", "zero"):
        t = rng.random(6) * 0.1 * min(1, 1e-4 / tol)
        case.eq(signal(R.axes[0].get_values(), R.values, t), signal(f1, a1, t) * signal(f2, a2, t), "signal of the product", atol=2e-3 * scale)
        case.run.count("product signals")
    case.true(all(np.array_equal(x, y) for p, q in zip(before, snapshot(S1, S2)) for x, y in zip(p, q)), "operands unchanged")
    case.sig("conv", how, *sig)


def errors(case):
    rng = case.rng
    S, f, a, _ = spectrum(case, int(rng.integers(2, 6)), 1e-4, "irregular", False, False)
    n = int(rng.integers(2, 6))
    F = Data1D(name="freqs", unit="Hz", values=np.sort(rng.permutation(50)[:n]) * 1.0)
    neg = Data1D(name="freqs", unit="Hz", values=F.values - float(F.values[int(rng.integers(1, n))]))
    Z = Data1D(name="z", unit="m", values=np.arange(n) * 1.0)
    v = rng.standard_normal(n)
    what = pick(rng, ["2d", "other axis", "negative", "type", "datand"])
    if what == "2d":
        bad = DataFreq(name="b", symbol="B", unit="T", axes=[F, Z], values=rng.standard_normal((n, n)))
    elif what == "other axis":
        bad = DataFreq(name="b", symbol="B", unit="T", axes=[Z], values=v)
    elif what == "negative":
        bad = DataFreq(name="b", symbol="B", unit="T", axes=[neg], values=v)
    elif what == "type":
        bad = pick(rng, [v, 3.0, F])
    else:
        bad = DataND(name="b", symbol="B", unit="T", axes=[F], values=v)
    case.log(what)
    case.raises("sum with %s" % what, S.sum, bad)
    case.raises("product with %s" % what, S.conv, bad)
    if what in ("2d", "other axis", "negative"):
        case.raises("sum of %s" % what, bad.sum, S)
        case.raises("product of %s" % what, bad.conv, S)
    case.sig(what, n)


SCENARIOS = [("total", total, 1200, 24000), ("product", product, 1800, 36000), ("errors", errors, 100, 1200)]
