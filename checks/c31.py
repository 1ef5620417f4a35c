"""C31: change of the stored periodicity of vector fields"""
import numpy as np

from SciDataTool import VectorField
from checks.c19 import SYM, SYS
from checks.common import shuffled
from mon.gen import Ax, Fld, Norm_ref, any_axis, axis_1d, chance, lin_axis, pattern_axis, pick, rnd, values_for
from mon.objs import difference, read

RULE = (
    "vector fields (any subset of cylindrical or cartesian components) over time and angle, alone or with z (plain, pattern, "
    "one sample) or another third axis; time and angle plain, periodic (1 to 12 periods) or antiperiodic, listed or described, "
    "any start, regular or not; every divisor of the numbers of periods as target, with or without antiperiodicity; full field "
    "and axes compared with the stored description; distinct = axis classes x ratios x antiperiodicity"
)


def axis(rng, name):
    sym = pick(rng, [None, "period", "period", "antiperiod"])
    n = int(rng.integers(1, 8)) if sym is None else int(rng.integers(2, 7))
    a = any_axis(rng, name, sym=sym, n=n)
    if sym:
        a.n = int(pick(rng, [1, 2, 3, 4, 6, 12])) * (2 if sym == "antiperiod" else 1)
    return a


def periods(a):
    return 1 if a.sym is None else a.n // 2 if a.sym == "antiperiod" else a.n


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def change(case):
    rng = case.rng
    axes = [axis(rng, "time"), axis(rng, "angle")]
    third = pick(rng, [None, None, "z", "pattern", "pattern", "one", "radius", "perz"])
    if third == "z":
        axes.append(any_axis(rng, "z"))
    elif third == "pattern":
        axes.append(pattern_axis(rng, "z", step=chance(rng, 0.4)))
    elif third == "one":
        axes.append(any_axis(rng, "z", n=1))
    elif third == "radius":
        axes.append(axis_1d(rng, "radius", int(rng.integers(1, 5)), 0.1, unit="m"))
    elif third == "perz":
        axes.append(any_axis(rng, "z", sym=pick(rng, ["period", "antiperiod"]), n=3))
    comps = SYS[pick(rng, ["cyl", "cyl", "cart"])]
    comps = pick(rng, [comps, comps[:2], comps[:1], comps[1:], comps[::2]])
    kind = pick(rng, ["f", "f", "f", "c"])
    flds = {}
    for c in shuffled(rng, comps):
        flds[c] = Fld(axes, values_for(rng, axes, kind), symbol=SYM[c], unit="T", name=c + " field", is_real=kind != "c")
        if chance(rng, 0.3):
            flds[c].norms = {"ref": lambda: Norm_ref(ref=2.5)}
    V = case.lib(lambda: VectorField(name="Flux", symbol="B", components={c: f.build() for c, f in flds.items()}))
    before = read(V)
    pt, pa = periods(axes[0]), periods(axes[1])
    for _ in range(2):
        nt, na = pick(rng, divisors(pt)), pick(rng, divisors(pa))
        if chance(rng, 0.2):
            nt, na = pt, pa
        kw = {}
        # antiperiodicity can be kept when the number of periods is
        keep_t = axes[0].sym == "antiperiod" and nt == pt and chance(rng, 0.6)
        keep_a = axes[1].sym == "antiperiod" and na == pa and chance(rng, 0.6)
        if keep_t:
            kw["is_aper_t_new"] = True
        elif axes[0].sym == "antiperiod" and nt < pt and chance(rng, 0.4):
            kw["is_aper_t_new"] = True
        elif chance(rng, 0.3):
            kw["is_aper_t_new"] = False
        if keep_a and chance(rng, 0.5):
            kw["is_aper_a_new"] = True
        elif axes[1].sym == "antiperiod" and na < pa and chance(rng, 0.4):
            # asked for, but half of several periods cannot be kept
            kw["is_aper_a_new"] = True
        elif axes[1].sym == "antiperiod" and not keep_a and chance(rng, 0.6):
            kw["is_aper_a_new"] = False
        case.log(axes, list(flds), kind)
        case.log("change_periodicity", na, nt, kw)
        W = case.lib(V.change_periodicity, na, nt, **kw)
        case.true(type(W) is VectorField, "class", got=type(W).__name__)
        case.true(sorted(W.components) == sorted(flds), "components", got=sorted(W.components))
        case.true((W.name, W.symbol) == ("Flux", "B"), "name and symbol", got=(W.name, W.symbol))
        for c, f in flds.items():
            d = W.components[c]
            case.true((d.name, d.symbol, d.unit, bool(d.is_real)) == (f.name, f.symbol, f.unit, f.is_real), "description of %s" % c, got=(d.name, d.symbol, d.unit, d.is_real))
            case.true(sorted(d.normalizations) == sorted(f.norms), "normalizations of %s" % c, got=sorted(d.normalizations))
            case.true([a.name for a in d.axes] == f.names(), "axes of %s" % c, got=[a.name for a in d.axes])
            case.true([a.unit for a in d.axes] == [a.unit for a in f.axes], "units of the axes", got=[a.unit for a in d.axes])
            res = case.lib(d.get_along, *shuffled(rng, f.names()), is_squeeze=False)
            case.eq(res[f.symbol], f.full, "full field of %s" % c, rtol=1e-12, atol=1e-13 * np.max(np.abs(f.values)))
            for a in axes:
                span = np.max(np.abs(a.full)) + 1e-300
                case.eq(np.atleast_1d(res[a.name]), a.full, "full axis %s" % a.name, rtol=0, atol=1e-10 * span)
            for a, new, old in ((axes[0], nt, pt), (axes[1], na, pa)):
                x = [b for b in d.axes if b.name == a.name][0]
                got = np.atleast_1d(case.lib(x.get_values, is_oneperiod=True))
                exp = a.full[: len(a.full) // new]
                case.true(len(got) == len(exp), "samples of one declared period of %s" % a.name, got=len(got), expected=len(exp))
            # one sample of the request language on the rewritten object
            q = d.get_along("time[oneperiod]", "angle[oneperiod]", *f.names()[2:], is_squeeze=False)[f.symbol]
            case.eq(q, f.full[: len(axes[0].full) // nt, : len(axes[1].full) // na], "one period of %s" % c, rtol=1e-12, atol=1e-13 * np.max(np.abs(f.values)))
        if (nt, na) == (pt, pa) and (keep_t or axes[0].sym != "antiperiod") and (axes[1].sym != "antiperiod" or kw.get("is_aper_a_new") is not False):
            case.true(bool(W == V), "asking for the present periodicity gives an equal field")
            case.run.count("same periodicity")
        d = difference(read(V), before)
        case.true(d is None, "the vector field is only read", got=d)
        case.sig([a.cls() for a in axes], pt // nt > 1, pa // na > 1, sorted(kw.items()))


SCENARIOS = [("change", change, 800, 21000)]
