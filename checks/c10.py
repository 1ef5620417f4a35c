"""C10: unit conversion"""
import numpy as np

from checks.common import shuffled
from mon.gen import Fld, any_axis, any_field, chance, pick, values_for
from SciDataTool.Functions.conversions import convert

RULE = (
    "units drawn from an independent table of SI definitions (symbol, prefix, power 1-3, numerator and denominator); pairs "
    "of equal dimension must convert by the ratio of the definitions, pairs of different dimension or malformed units must "
    "raise; the same through field and axis requests; distinct = (numerator symbol, denominator symbol, powers) of both units "
    "or kind of malformation"
)
# symbol -> (value in SI, dimensions kg m s K rad A), from the definitions of the units
SYM = {
    "rad": (1.0, (0, 0, 0, 0, 1, 0)),
    "°": (np.pi / 180, (0, 0, 0, 0, 1, 0)),
    "rpm": (2 * np.pi / 60, (0, 0, -1, 0, 1, 0)),
    "min": (60.0, (0, 0, 1, 0, 0, 0)),
    "Ohm": (1.0, (1, 2, -3, 0, 0, -2)),
    "At": (1.0, (0, 0, 0, 0, 0, 1)),
    "Wb": (1.0, (1, 2, -2, 0, 0, -1)),
    "Mx": (1e-8, (1, 2, -2, 0, 0, -1)),
    "Hz": (1.0, (0, 0, -1, 0, 0, 0)),
    "Pa": (1.0, (1, -1, -2, 0, 0, 0)),
    "g": (1e-3, (1, 0, 0, 0, 0, 0)),
    "s": (1.0, (0, 0, 1, 0, 0, 0)),
    "h": (3600.0, (0, 0, 1, 0, 0, 0)),
    "A": (1.0, (0, 0, 0, 0, 0, 1)),
    "J": (1.0, (1, 2, -2, 0, 0, 0)),
    "W": (1.0, (1, 2, -3, 0, 0, 0)),
    "N": (1.0, (1, 1, -2, 0, 0, 0)),
    "C": (1.0, (0, 0, 1, 0, 0, 1)),
    "T": (1.0, (1, 0, -2, 0, 0, -1)),
    "G": (1e-4, (1, 0, -2, 0, 0, -1)),
    "V": (1.0, (1, 2, -3, 0, 0, -1)),
    "F": (1.0, (-1, -2, 4, 0, 0, 2)),
    "H": (1.0, (1, 2, -2, 0, 0, -2)),
    "m": (1.0, (0, 1, 0, 0, 0, 0)),
    "degC": (1.0, (0, 0, 0, 1, 0, 0)),
}
PRE = {
    "": 0, "Y": 24, "Z": 21, "E": 18, "P": 15, "T": 12, "G": 9, "M": 6, "k": 3, "h": 2, "da": 1, "d": -1, "c": -2,
    "m": -3, "µ": -6, "u": -6, "μ": -6, "n": -9, "p": -12, "f": -15, "a": -18, "z": -21, "y": -24,
}
COMMON = ["", "", "k", "m", "c", "d", "M", "u", "µ", "n", "h", "da", "G"]
# one text, one meaning
_all = {}
for _p in PRE:
    for _s in SYM:
        _all.setdefault(_p + _s, []).append((_p, _s))
AMBIG = {k for k, v in _all.items() if len(v) > 1}
BYDIM = {}
for _s, (_v, _d) in SYM.items():
    BYDIM.setdefault(_d, []).append(_s)


class Unit(object):
    """List of (prefix, symbol, power), first numerator then denominator"""

    def __init__(self, num, den=None):
        self.num, self.den = num, den

    def text(self, rng=None):
        def one(u):
            p, s, n = u
            t = p + s
            if n != 1:
                t += ("^" if rng is not None and chance(rng, 0.15) else "") + str(n)
            return t

        t = "" if self.num is None else one(self.num)
        if self.den is not None:
            t += "/" + one(self.den)
        if rng is not None and chance(rng, 0.05):
            t = t.replace("/", " / ")
        return t

    def value(self):
        """Value in SI: mantissa and power of ten"""
        man, ex = 1.0, 0
        for u, sg in ((self.num, 1), (self.den, -1)):
            if u is None:
                continue
            p, s, n = u
            man *= SYM[s][0] ** (sg * n)
            ex += sg * n * PRE[p]
        return man, ex

    def dim(self):
        d = np.zeros(6, dtype=int)
        for u, sg in ((self.num, 1), (self.den, -1)):
            if u is not None:
                d += sg * u[2] * np.array(SYM[u[1]][1])
        return tuple(int(i) for i in d)

    def cls(self):
        return "%s/%s" % (self.num and self.num[1:], self.den and self.den[1:])


def factor(rng, s=None, power=None, wide=False):
    while True:
        sym = s or pick(rng, sorted(SYM))
        p = pick(rng, sorted(PRE) if wide else COMMON)
        if p + sym in AMBIG:
            continue
        return (p, sym, power or (1 if chance(rng, 0.7) else int(rng.integers(2, 4))))


def same_dim(rng, u, wide=False):
    """Another unit with the dimension of u, possibly with other symbols"""

    def other(f):
        if f is None:
            return None
        s = pick(rng, BYDIM[SYM[f[1]][1]])
        return factor(rng, s, f[2], wide)

    return Unit(other(u.num), other(u.den))


EQUIV = [
    # written differently, same dimension
    (Unit(("", "Pa", 1)), Unit(("", "N", 1), ("", "m", 2))),
    (Unit(("", "W", 1)), Unit(("", "J", 1), ("", "s", 1))),
    (Unit(("", "T", 1)), Unit(("", "Wb", 1), ("", "m", 2))),
    (Unit(("", "H", 1)), Unit(("", "Wb", 1), ("", "A", 1))),
    (Unit(("", "Ohm", 1)), Unit(("", "V", 1), ("", "A", 1))),
    (Unit(("", "A", 1)), Unit(("", "C", 1), ("", "s", 1))),
    (Unit(("", "F", 1)), Unit(("", "C", 1), ("", "V", 1))),
    (Unit(("", "V", 1)), Unit(("", "Wb", 1), ("", "s", 1))),
    (Unit(("", "rpm", 1)), Unit(("", "rad", 1), ("", "s", 1))),
    (Unit(("", "Hz", 1)), Unit(None, ("", "s", 1))),
    (Unit(("", "N", 1)), Unit(("", "J", 1), ("", "m", 1))),
    (Unit(("", "T", 1)), Unit(("", "Mx", 1), ("c", "m", 2))),
    (Unit(("", "rpm", 1)), Unit(("", "°", 1), ("", "s", 1))),
    (Unit(("", "V", 1)), Unit(("", "W", 1), ("", "A", 1))),
    (Unit(("", "C", 1)), Unit(("", "J", 1), ("", "V", 1))),
    (Unit(("", "Wb", 1)), Unit(("", "J", 1), ("", "A", 1))),
    (Unit(("", "Ohm", 1)), Unit(("", "H", 1), ("", "s", 1))),
]


def expected(v, u1, u2):
    m1, e1 = u1.value()
    m2, e2 = u2.value()
    return v * (m1 / m2) * 10.0 ** (e1 - e2)


def pair(rng, wide):
    if chance(rng, 0.25):
        a, b = pick(rng, EQUIV)
        if chance(rng, 0.5):
            a, b = b, a

        def pre(u):
            def f(x):
                if x is None:
                    return None
                return factor(rng, x[1], x[2], wide)

            return Unit(f(u.num), f(u.den))

        return pre(a), pre(b)
    u1 = Unit(factor(rng, wide=wide), factor(rng, wide=wide) if chance(rng, 0.45) else None)
    return u1, same_dim(rng, u1, wide)


def ratio(case):
    rng = case.rng
    u1, u2 = pair(rng, chance(rng, 0.4))
    t1, t2 = u1.text(rng), u2.text(rng)
    v = rng.standard_normal(3) * 100
    case.log("convert", t1, "->", t2)
    case.true(u1.dim() == u2.dim(), "harness: same dimension")
    exp = expected(v, u1, u2)
    if not np.all(np.isfinite(exp)) or np.any(np.abs(exp) < 1e-280):
        return
    case.eq(case.lib(convert, v, t1, t2), exp, "%s to %s" % (t1, t2), rtol=1e-12)
    # a single number, and back
    x = case.lib(convert, float(v[0]), t1, t2)
    case.eq(x, exp[0], "one number, %s to %s" % (t1, t2), rtol=1e-12)
    case.eq(case.lib(convert, x, t2, t1), v[0], "back", rtol=1e-12)
    # composition through a third unit
    u3 = same_dim(rng, u1)
    t3 = u3.text(rng)
    y = case.lib(convert, case.lib(convert, v, t1, t3), t3, t2)
    case.eq(y, exp, "%s to %s through %s" % (t1, t2, t3), rtol=1e-11)
    case.sig(u1.cls(), u2.cls())


TABLE = [(p, s) for p in PRE for s in SYM if p + s not in AMBIG]


def table(case):
    """Every prefix on every symbol, to and from the plain symbol, powers 1 to 3"""
    p, s = TABLE[case.index % len(TABLE)]
    for n in (1, 2, 3):
        t1 = Unit((p, s, n)).text()
        t2 = Unit(("", s, n)).text()
        ex = PRE[p] * n
        case.log(t1, t2)
        case.eq(case.lib(convert, 1.0, t1, t2), 10.0**ex, "%s to %s" % (t1, t2), rtol=1e-12)
        d1 = Unit(("", "m", 1), (p, s, n)).text()
        d2 = Unit(("", "m", 1), ("", s, n)).text()
        case.eq(case.lib(convert, 1.0, d1, d2), 10.0**-ex, "%s to %s" % (d1, d2), rtol=1e-12)
    # to every symbol of the same dimension
    for s2 in BYDIM[SYM[s][1]]:
        e = SYM[s][0] / SYM[s2][0] * 10.0 ** PRE[p]
        case.eq(case.lib(convert, 1.0, p + s, s2), e, "%s to %s" % (p + s, s2), rtol=1e-12)
    # to every symbol of another dimension: refused
    for s2 in SYM:
        if SYM[s2][1] != SYM[s][1]:
            case.raises("%s to %s" % (p + s, s2), convert, 1.0, p + s, s2)
    case.sig(p, s)


MALFORMED = ["foo", "xm", "mk", "m2s", "Nm", "sm", "bT", "mmm", "T/q", "qq/s", "m/s/s", "1", "kk", "m-1", "Hz2x", "kgm", "m2.5", "K", "eV", "bar"]


def refused(case):
    rng = case.rng
    w = pick(rng, ["dim", "bad", "bad2", "power", "inverse", "none"])
    v = rng.standard_normal(2)
    if w == "dim":
        while True:
            u1, u2 = Unit(factor(rng), factor(rng) if chance(rng, 0.4) else None), Unit(factor(rng), factor(rng) if chance(rng, 0.4) else None)
            if u1.dim() != u2.dim():
                break
        t1, t2 = u1.text(), u2.text()
    elif w == "power":
        f = factor(rng, power=1)
        t1, t2 = Unit(f).text(), Unit((f[0], f[1], 2)).text()
    elif w == "none":
        # a quantity with a dimension is not a number
        t1, t2 = Unit(factor(rng)).text(), pick(rng, ["dimless", ""])
    elif w == "inverse":
        a, b = factor(rng, power=1), factor(rng, power=1)
        u1, u2 = Unit(a, b), Unit(b, a)
        if u1.dim() == u2.dim():
            return
        t1, t2 = u1.text(), u2.text()
    else:
        t1, t2 = pick(rng, MALFORMED), Unit(factor(rng)).text()
        if w == "bad2":
            t1, t2 = t2, t1
    case.log("convert", t1, t2)
    case.raises("conversion of %s to %s" % (t1, t2), convert, v, t1, t2)
    if t1 != t2 and w in ("dim", "power", "none"):
        case.raises("conversion of %s to %s" % (t2, t1), convert, v, t2, t1)
    case.sig(w, t1 if w.startswith("bad") else "", t2 if w == "bad2" else "")


def bark(case):
    rng = case.rng
    f = rng.random(4) * 15000 + 30
    z = case.lib(convert, f, "Hz", "Bark")
    case.log("Bark", f)
    case.eq(z, 26.81 * f / (1960 + f) - 0.53, "Hz to Bark", rtol=1e-9)
    case.eq(case.lib(convert, z, "Bark", "Hz"), f, "Bark to Hz", rtol=1e-9)
    case.sig(int(f[0] // 100))


def query(case):
    """The same ratios for fields and axes in requests"""
    rng = case.rng
    u1 = Unit(factor(rng), factor(rng) if chance(rng, 0.4) else None)
    u2 = same_dim(rng, u1)
    a1 = Unit(factor(rng, power=1))
    a2 = same_dim(rng, a1)
    t1, t2, b1, b2 = u1.text(), u2.text(), a1.text(), a2.text()
    ax = any_axis(rng, pick(rng, ["position", "load", "speed"]), one=0)
    ax.unit = b1
    others = [any_axis(rng, n) for n in shuffled(rng, ["time", "z"])[: int(rng.integers(0, 2))]]
    axes = shuffled(rng, [ax] + others)
    fld = Fld(axes, values_for(rng, axes, "f"), unit=t1)
    D = case.lib(fld.build)
    args = [a.name + ("{%s}" % b2 if a is ax else "") for a in axes]
    case.log(fld, args, t2)
    how = pick(rng, ["get_along", "get_magnitude_along", "get_values"])
    ev, ea = expected(fld.full, u1, u2), expected(ax.full, a1, a2)
    if how == "get_values":
        A = [x for x in case.lib(D.get_axes) if x.name == ax.name][0]
        case.eq(case.lib(A.get_values, unit=b2), ea, "axis in %s" % b2, rtol=1e-10)
    else:
        res = case.lib(getattr(D, how), *args, unit=t2, is_squeeze=False)
        case.eq(res[fld.symbol], np.abs(ev) if how == "get_magnitude_along" else ev, "field in %s" % t2, rtol=1e-10)
        case.eq(res[ax.name], ea, "axis in %s" % b2, rtol=1e-10)
    # values designated in the requested unit
    k = int(rng.integers(len(ea)))
    g = np.min(np.abs(np.delete(ea, k) - ea[k]))
    lo, hi = ea[k] - 0.4 * g, ea[k] + 0.4 * g
    args2 = [a.name + ("=[%r,%r]{%s}" % (float(lo), float(hi), b2) if a is ax else "") for a in axes]
    res = case.lib(D.get_along, *args2, is_squeeze=False)
    i = axes.index(ax)
    case.eq(res[fld.symbol], np.take(fld.full, [k], axis=i), "interval in %s" % b2)
    # another dimension or an unknown unit is refused
    while True:
        u3 = Unit(factor(rng))
        if u3.dim() not in (u1.dim(), a1.dim()):
            break
    bad = pick(rng, [u3.text(), "foo", "m/s/s", "xx"])
    case.log("refused", bad)
    case.raises("field in %s instead of %s" % (bad, t1), D.get_along, *[a.name for a in axes], unit=bad)
    case.raises("axis in %s instead of %s" % (bad, b1), D.get_along, *[a.name + ("{%s}" % bad if a is ax else "") for a in axes])
    case.sig(how, u1.cls(), a1.cls())


SCENARIOS = [
    ("ratio", ratio, 8000, 180000),
    ("table", table, len(TABLE), len(TABLE)),
    ("refused", refused, 5000, 90000),
    ("bark", bark, 100, 1500),
    ("query", query, 1400, 21000),
]
