"""C26: axis objects"""
import copy

import numpy as np

from checks.c12 import NAMES, norm_of
from checks.common import shuffled
from mon.gen import AX_BASE, AXUNITS, SPAN, Ax, Data1D, DataLinspace, DataPattern, Norm_ref, any_axis, axis_1d, chance, lin_axis, pattern_axis, pick, ratio, rnd

RULE = (
    "axes of every kind (listed, regular described by start/step/stop/number with or without end point, patterns, labels; "
    "plain, periodic, antiperiodic, one sample; steps from 1e-9 to 1e6, offsets up to a million steps, integer coordinates), "
    "asked for lengths, periods and coordinates of every part in every unit and normalization, converted to regular axes and "
    "reduced to every number of periods; compared with the listed coordinates; distinct = axis class x question"
)


def sized(rng, name, sym, n=None, uniform=None):
    """Axis with any scale and offset"""
    n = n or int(rng.integers(1, 12))
    step = float(10.0 ** pick(rng, [-9, -6, -3, -1, 0, 2, 6])) * rnd(rng, 0.3, 3)
    start = step * pick(rng, [0.0, 0.0, rnd(rng, -5, 5), 1000.0, -1e5, 1e6])
    uniform = chance(rng, 0.7) if uniform is None else uniform
    if uniform and chance(rng, 0.6):
        a = lin_axis(rng, name, n, start, step=step)
    elif uniform:
        a = axis_1d(rng, name, n, start, step=step)
        if chance(rng, 0.2):
            a.stored = np.arange(n) * int(rng.integers(1, 5)) + int(rng.integers(-3, 4))
    else:
        x = start + step * (np.cumsum(0.3 + rng.random(n)))
        a = Ax(name, AX_BASE[name], x, "1d")
    if sym:
        a.sym = sym
        a.n = int(rng.integers(2, 6)) if sym == "period" else int(2 * rng.integers(1, 4))
        if n == 1:
            a.delta = float(step)
    return a


def tol(a):
    """Coordinates hold to a small part of the step"""
    x = np.asarray(a.full, dtype=float)
    d = np.min(np.abs(np.diff(x))) if len(x) > 1 else 0.0
    return max(1e-6 * d, 4e-15 * np.max(np.abs(x)) * max(1, a.n)) + 1e-300


def close(case, got, exp, t, what):
    case.eq(got, np.asarray(exp, dtype=float), what, rtol=0.0, atol=t)


def axis(case, name=None):
    rng = case.rng
    name = name or pick(rng, ["time", "angle", "z", "speed", "load", "position"])
    sym = pick(rng, [None, None, "period", "antiperiod"])
    return sized(rng, name, sym)


def parts(case):
    rng = case.rng
    if chance(rng, 0.2):
        a = pattern_axis(rng, "z", step=chance(rng, 0.4))
    else:
        a = axis(case)
    case.log(a, a.lin)
    A = case.lib(a.build)
    t = tol(a)
    qs = shuffled(rng, ["whole", "small", "one", "anti", "unit", "period", "again"])
    for q in qs:
        case.log(q)
        if q in ("whole", "again"):
            v = case.lib(A.get_values)
            close(case, v, a.full, t, "whole coordinates")
            case.true(case.lib(A.get_length) == len(a.full), "whole length", got=A.get_length(), expected=len(a.full))
            # what is returned belongs to the caller
            v[...] = 77
        elif q == "small":
            close(case, case.lib(A.get_values, is_smallestperiod=True), a.stored, t, "smallest coordinates")
            case.true(case.lib(A.get_length, is_smallestperiod=True) == len(a.stored), "smallest length", got=A.get_length(is_smallestperiod=True))
            if a.sym == "pattern":
                close(case, case.lib(A.get_values, is_pattern=True), a.stored, t, "pattern coordinates")
                case.true(case.lib(A.get_length, is_pattern=True) == len(a.stored), "pattern length")
        elif q == "one" and a.sym != "pattern":
            close(case, case.lib(A.get_values, is_oneperiod=True), a.oneperiod, t, "coordinates of one period")
            case.true(case.lib(A.get_length, is_oneperiod=True) == len(a.oneperiod), "length of one period", got=A.get_length(is_oneperiod=True))
        elif q == "anti" and a.sym != "pattern":
            if a.sym == "antiperiod":
                close(case, case.lib(A.get_values, is_antiperiod=True), a.stored, t, "coordinates of one antiperiod")
                case.true(case.lib(A.get_length, is_antiperiod=True) == len(a.stored), "length of one antiperiod")
            else:
                case.raises("antiperiod of an axis without one", A.get_values, is_antiperiod=True)
                case.raises("length of the antiperiod of an axis without one", A.get_length, is_antiperiod=True)
        elif q == "unit":
            u = pick(rng, AXUNITS[a.unit])
            k = ratio(a.unit, u)
            kw = pick(rng, [{}, {"is_smallestperiod": True}])
            base = a.stored if kw else a.full
            close(case, case.lib(A.get_values, unit=u, **kw), base * k, t * k + 1e-15 * np.max(np.abs(base * k)), "coordinates in %s" % u)
        elif q == "period":
            case.same(bool(case.lib(A.has_period)), a.sym in ("period", "antiperiod"), "has a period")
            if a.sym != "pattern":
                per = case.lib(A.get_periodicity)
                exp = (a.n, a.sym == "antiperiod") if a.sym else (1, False)
                case.true((int(per[0]), bool(per[1])) == exp, "periodicity", got=per, expected=exp)
    # beginning of the whole axis, stored step continued
    v = np.asarray(case.lib(A.get_values), dtype=float)
    s = np.asarray(case.lib(A.get_values, is_smallestperiod=True), dtype=float)
    if a.sym in ("period", "antiperiod"):
        close(case, v[: len(s)], s, t, "the smallest part begins the whole axis")
        if a.uniform and len(v) > 1:
            d = np.diff(v)
            st = a.delta if len(s) == 1 else (s[-1] - s[0]) / (len(s) - 1)
            case.true(np.max(np.abs(d - st)) <= 2 * t + 1e-6 * abs(st), "the step is continued", got=d, step=st)
    case.sig(a.cls(), a.lin and a.lin["how"], len(a.stored))


def regular(case):
    """The same regular points, listed or described"""
    rng = case.rng
    name = pick(rng, ["time", "angle", "z", "speed", "freqs", "wavenumber"])
    n = int(pick(rng, [1, 2, 3, int(rng.integers(2, 40)), int(rng.integers(100, 3000))]))
    step = pick(rng, [rnd(rng, 0.01, 2), 1.0 / int(rng.integers(2, 50)), np.pi / int(rng.integers(2, 50)), 10.0 ** int(rng.integers(-9, 6)), 0.1, 0.3])
    start = pick(rng, [0.0, rnd(rng, -3, 3), 1e3 * step, -7 * step])
    if chance(rng, 0.15):
        step = -step
    if chance(rng, 0.15):
        step, start = int(rng.integers(1, 5)), int(rng.integers(-4, 5))
    listed = start + step * np.arange(n)
    t = 1e-6 * abs(step) + 4e-15 * np.max(np.abs(listed))
    L = case.lib(Data1D, name=name, unit="dimless", values=listed)
    hows = ["nend", "nopen", "stepopen", "stepend", "numstep"] if n > 1 else ["nopen", "stepopen", "numstep"]
    for how in shuffled(rng, hows):
        lin = dict(initial=start)
        if how == "nend":
            lin.update(final=start + step * (n - 1), number=n, include_endpoint=True)
        elif how == "nopen":
            lin.update(final=start + step * n, number=n, include_endpoint=False)
        elif how == "stepopen":
            lin.update(final=start + step * n, step=step, include_endpoint=False)
        elif how == "stepend":
            lin.update(final=start + step * (n - 1), step=step, include_endpoint=True)
        else:
            lin.update(number=n, step=step, include_endpoint=chance(rng, 0.5))
        case.log(how, lin)
        A = case.lib(DataLinspace, name=name, unit="dimless", **lin)
        close(case, case.lib(A.get_values), case.lib(L.get_values), t, "coordinates (%s)" % how)
        case.true(case.lib(A.get_length) == case.lib(L.get_length) == n, "length (%s)" % how, got=A.get_length(), expected=n)
    case.sig(name, n if n < 4 else n // 20, type(step).__name__, step < 0, start == 0)


def reduce(case):
    """Reduction to a number of periods and back"""
    rng = case.rng
    uniform = chance(rng, 0.8)
    a = sized(rng, pick(rng, ["time", "angle", "z"]), pick(rng, [None, None, None, "period", "antiperiod"]), n=int(pick(rng, [1, 2, 4, 6, 8, 12, 24, int(rng.integers(1, 30))])), uniform=True)
    norms = {}
    if chance(rng, 0.4):
        nm = pick(rng, NAMES)
        kind, obj, f = norm_of(rng, a, ("ref", "affine", "vector") if a.sym is None else ("ref", "affine"))
        if kind == "vector":
            v = 3.0 + 0.7 * np.arange(len(a.stored))
            a.norms = {nm: lambda ax, full: __import__("SciDataTool").Norm_vector(vector=v.copy())}
            norms[nm] = lambda x, part: v
        else:
            a.norms = {nm: (lambda ax, full, obj=obj: copy.deepcopy(obj))}
            norms[nm] = f
    A = case.lib(a.build)
    N = len(a.full)
    per = int(pick(rng, [1, 2, 3, 4, 5, 6, N]))
    aper = chance(rng, 0.5)
    m = 2 * per if aper else per
    case.log(a, a.lin, "reduce", per, aper)
    R = case.lib(A.get_axis_periodic, per, is_aper=aper)
    t = tol(a)
    case.same(R.name, a.name, "name of the reduced axis")
    case.same(R.unit, a.unit, "unit of the reduced axis")
    close(case, case.lib(R.get_values), a.full, t, "reduced axis rebuilt")
    case.true(case.lib(R.get_length) == N, "length of the rebuilt axis", got=R.get_length(), expected=N)
    if N % m == 0:
        close(case, case.lib(R.get_values, is_smallestperiod=True), a.full[: N // m], t, "reduced part")
        case.true(case.lib(R.get_length, is_smallestperiod=True) == N // m, "length of the reduced part")
        got = case.lib(R.get_periodicity)
        exp = (m, aper) if m > 1 else (1, False)
        case.true((int(got[0]), bool(got[1])) == exp, "periodicity of the reduced axis", got=got, expected=exp)
        close(case, case.lib(R.get_values, is_oneperiod=True), a.full[: (2 * N // m if aper else N // m)], t, "one period of the reduced axis")
        case.run.count("divides")
    else:
        close(case, case.lib(R.get_values, is_smallestperiod=True), a.stored, t, "axis unchanged when the number does not divide")
        got = case.lib(R.get_periodicity)
        case.true((int(got[0]), bool(got[1])) == ((a.n, a.sym == "antiperiod") if a.sym else (1, False)), "periodicity unchanged", got=got)
        case.run.count("does not divide")
    for nm, f in norms.items():
        if kind == "vector" and N % m == 0 and N // m == 1 and m > 1:
            # the step of the vector cannot be known from one sample
            continue
        close(case, case.lib(R.get_values, unit=nm), f(a.full, "whole"), 1e-6 * (1 + np.max(np.abs(f(a.full, "whole")))), "normalized coordinates of the reduced axis")
    # the original is left as it was
    close(case, case.lib(A.get_values, is_smallestperiod=True), a.stored, t, "original axis")
    case.true(R is not A, "another axis is returned")
    case.sig(a.cls(), a.lin and a.lin["how"], per, aper, N % m == 0, N // m == 1, sorted(norms) != [])


def convert(case):
    """Listed axes turned into regular ones"""
    rng = case.rng
    a = sized(rng, pick(rng, ["time", "angle", "z", "speed", "freqs"]), pick(rng, [None, None, "period", "antiperiod"]), n=int(rng.integers(1, 10)), uniform=chance(rng, 0.5))
    a.lin = None
    if a.name == "freqs":
        a.sym, a.n, a.delta = None, 1, None
    if chance(rng, 0.15) and a.sym is None:
        # nearly regular
        n = len(a.stored)
        a.stored = np.arange(n) * 1.0
        if n > 2:
            a.stored[n // 2] += 0.05
        a.stored = a.stored * 10.0 ** int(rng.integers(-9, 4))
    A = case.lib(a.build)
    case.log(a, a.stored.tolist())
    L = case.lib(A.to_linspace)
    x = np.asarray(a.full, dtype=float)
    d = np.min(np.abs(np.diff(x))) if len(x) > 1 else 0.0
    close(case, case.lib(L.get_values), x, 2e-3 * d + 4e-15 * np.max(np.abs(x)) * a.n, "coordinates of the converted axis")
    case.true(case.lib(L.get_length) == len(x), "length of the converted axis")
    case.true((L.name, L.unit) == (a.name, a.unit), "name and unit")
    close(case, case.lib(A.get_values), x, tol(a), "original axis")
    case.sig(a.cls(), type(L).__name__)


def spectra(case):
    """Axes of spectra computed from symmetric fields"""
    rng = case.rng
    from checks.c07 import fourier_field

    fld = fourier_field(rng, even=True, pattern=False, circle=True)
    D = case.lib(fld.build)
    case.log(fld)
    F = case.lib(D.time_to_freq)
    for A in case.lib(F.get_axes):
        if A.is_components:
            continue
        v = case.lib(A.get_values)
        case.true(case.lib(A.get_length) == len(v), "length of axis %s of the spectrum" % A.name, got=A.get_length(), expected=len(v), symmetries=A.symmetries)
        for kw in ({"is_smallestperiod": True}, {"is_oneperiod": True}):
            if A.__class__.__name__ == "DataPattern" and "is_oneperiod" in kw:
                continue
            case.true(case.lib(A.get_length, **kw) == len(case.lib(A.get_values, **kw)), "length of a part of axis %s" % A.name)
    case.sig(fld.cls())


def labels(case):
    rng = case.rng
    n = int(rng.integers(1, 7))
    labs = ["r=%d, %s" % (k, pick(rng, ["stator", "rotor"])) for k in rng.permutation(9)[:n]]
    A = case.lib(Data1D, name="loadcases", unit="", values=labs, is_components=True)
    case.log(labs)
    case.eq(case.lib(A.get_values), np.array(labs), "labels")
    case.eq(case.lib(A.get_values, is_smallestperiod=True), np.array(labs), "labels")
    case.eq(case.lib(A.get_values, is_oneperiod=True), np.array(labs), "labels")
    case.true(case.lib(A.get_length) == n, "number of labels")
    case.same(bool(case.lib(A.has_period)), False, "labels have no period")
    L = case.lib(A.to_linspace)
    case.eq(case.lib(L.get_values), np.array(labs), "labels are kept by the conversion to a regular axis")
    case.sig(n)


SCENARIOS = [
    ("parts", parts, 3000, 60000),
    ("regular", regular, 1000, 18000),
    ("reduce", reduce, 2000, 45000),
    ("convert", convert, 1200, 24000),
    ("spectra", spectra, 300, 4500),
    ("labels", labels, 100, 1200),
]
