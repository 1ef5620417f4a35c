"""Generated data objects, each with an independent full (symmetry-free) description."""
import numpy as np

from SciDataTool import (
    Data1D,
    DataFreq,
    DataLinspace,
    DataND,
    DataPattern,
    DataTime,
    Norm_affine,
    Norm_func,
    Norm_indices,
    Norm_ref,
    Norm_vector,
)

# exact ratios to the base unit, written down independently of the library
UNIT = {
    "s": 1.0,
    "ms": 1e-3,
    "us": 1e-6,
    "min": 60.0,
    "h": 3600.0,
    "rad": 1.0,
    "°": np.pi / 180,
    "m": 1.0,
    "mm": 1e-3,
    "cm": 1e-2,
    "km": 1e3,
    "Hz": 1.0,
    "kHz": 1e3,
    "rpm": 2 * np.pi / 60,
    "krpm": 1e3 * 2 * np.pi / 60,
    "T": 1.0,
    "mT": 1e-3,
    "G": 1e-4,
    "A": 1.0,
    "kA": 1e3,
    "V": 1.0,
    "mV": 1e-3,
    "N": 1.0,
    "kN": 1e3,
    "W": 1.0,
    "mW": 1e-3,
    "Pa": 1.0,
    "hPa": 1e2,
    "m/s": 1.0,
    "km/h": 1e3 / 3600.0,
    "m/s2": 1.0,
    "N/m2": 1.0,
    "kN/mm2": 1e9,
    "dimless": 1.0,
}
AXUNITS = {
    "s": ["s", "ms", "us"],
    "rad": ["rad", "°"],
    "m": ["m", "mm", "cm"],
    "Hz": ["Hz", "kHz"],
    "rpm": ["rpm", "krpm"],
    "dimless": ["dimless"],
    "A": ["A", "kA"],
}
FUNITS = {
    "T": ["T", "mT", "G"],
    "A": ["A", "kA"],
    "V": ["V", "mV"],
    "N": ["N", "kN"],
    "W": ["W", "mW"],
    "Pa": ["Pa", "hPa", "N/m2"],
    "m/s": ["m/s", "km/h"],
    "N/m2": ["N/m2", "kN/mm2"],
}
AX_BASE = {
    "time": "s",
    "angle": "rad",
    "z": "m",
    "freqs": "Hz",
    "wavenumber": "dimless",
    "speed": "rpm",
    "order": "dimless",
    "load": "A",
    "position": "m",
    "r": "m",
}


def ratio(u1, u2):
    return UNIT[u1] / UNIT[u2]


class Ax(object):
    """Axis with its stored part and its full coordinates"""

    def __init__(self, name, unit, stored, kind="1d", sym=None, n=1, delta=None):
        self.name = name
        self.unit = unit
        self.stored = np.asarray(stored)
        self.kind = kind
        self.sym = sym  # None, "period", "antiperiod", "pattern"
        self.n = n
        self.delta = delta
        self.rebuild = None
        self.is_step = False
        self.whole = None
        self.labels = None
        self.norms = {}
        self.lin = None
        self.delimiter = None
        self.filter = None
        self.rank = None  # ranking of the full samples (listed axes)

    # --- description
    def __repr__(self):
        s = "%s[%s%s n=%d" % (self.name, self.kind, "" if self.lin is None else ":" + self.lin["how"], len(self.stored))
        if self.sym == "pattern":
            s += " pattern->%s%s" % (self.rebuild, " step" if self.is_step else "")
        elif self.sym:
            s += " %s=%d" % (self.sym, self.n)
        if self.labels is None and len(self.stored):
            s += " %.6g..%.6g" % (self.stored[0], self.stored[-1])
            if len(self.stored) > 2 and not self.uniform:
                s += " irregular"
        if self.norms:
            s += " norms=%s" % sorted(self.norms)
        return s + " " + self.unit + "]"

    def cls(self):
        c = self.kind
        if self.sym:
            c += "+" + self.sym
        if self.is_step:
            c += "+step"
        if len(self.stored) == 1:
            c += "+one"
        elif self.labels is None and not self.uniform:
            c += "+irr"
        if self.labels is None and len(self.stored) > 1 and self.stored[0] != 0:
            c += "+off"
        return self.name + ":" + c

    @property
    def uniform(self):
        if self.labels is not None or len(self.stored) < 3:
            return True
        d = np.diff(self.stored)
        return bool(np.allclose(d, d[0], rtol=1e-9, atol=0))

    @property
    def is_aper(self):
        return self.sym == "antiperiod"

    @property
    def is_phys(self):
        return self.name in ("time", "angle", "z")

    # --- independent full description
    @property
    def full(self):
        if self.labels is not None:
            return np.array(self.labels)
        if self.sym == "pattern":
            return self.whole if self.whole is not None else self.stored[self.rebuild]
        if self.sym is None:
            return self.stored
        x = self.stored
        if len(x) == 1:
            return x[0] + self.delta * np.arange(self.n)
        # length of one stored part: the span plus the step at its end
        length = (x[-1] - x[0]) + (x[-1] - x[-2])
        return np.concatenate([x + k * length for k in range(self.n)])

    @property
    def oneperiod(self):
        if self.sym == "antiperiod":
            return self.full[: 2 * len(self.stored)]
        if self.sym == "period":
            return self.stored
        return self.full

    def expand(self, v, axis):
        if self.sym == "pattern":
            return np.take(v, self.rebuild, axis=axis)
        if self.sym == "period":
            return np.concatenate([v] * self.n, axis=axis)
        if self.sym == "antiperiod":
            return np.concatenate([v if k % 2 == 0 else -v for k in range(self.n)], axis=axis)
        return v

    # --- library objects
    def _sym(self):
        if self.sym in ("period", "antiperiod"):
            d = {self.sym: self.n}
            if self.delta is not None:
                d["delta"] = self.delta
            return d
        return {}

    def _norms(self, full=False):
        return {k: f(self, full) for k, f in self.norms.items()}

    def build(self):
        kw = dict(name=self.name, unit=self.unit)
        if self.norms:
            kw["normalizations"] = self._norms()
        if self.labels is not None:
            kw.update(values=list(self.labels), is_components=True)
            if self.delimiter is not None:
                kw["delimiter"] = self.delimiter
            if self.filter is not None:
                kw["filter"] = self.filter
            if self.rank is not None:
                kw["sort_indices"] = list(self.rank)
            return Data1D(**kw)
        if self.sym == "pattern":
            kw.update(values=self.stored.copy(), rebuild_indices=list(self.rebuild), is_step=self.is_step)
            if self.whole is not None:
                kw["values_whole"] = self.whole.copy()
            return DataPattern(**kw)
        kw["symmetries"] = self._sym()
        if self.lin is not None:
            kw.update({k: v for k, v in self.lin.items() if k != "how"})
            return DataLinspace(**kw)
        if self.rank is not None:
            kw["sort_indices"] = list(self.rank)
        return Data1D(values=self.stored.copy(), **kw)

    def build_full(self):
        """The same axis listed explicitly, without symmetry"""
        kw = dict(name=self.name, unit=self.unit)
        if self.norms:
            kw["normalizations"] = self._norms(True)
        if self.labels is not None:
            return self.build()
        return Data1D(values=self.full.copy(), **kw)


class Fld(object):
    """Field with its stored and full values"""

    def __init__(self, axes, values, symbol="B", unit="T", name="Airgap field", is_real=True, norms=None):
        self.axes = axes
        self.values = values
        self.symbol = symbol
        self.unit = unit
        self.name = name
        self.is_real = is_real
        self.norms = norms or {}

    def __repr__(self):
        return "%s%s %s %s (%s)" % (
            self.symbol,
            self.values.shape,
            self.values.dtype,
            self.unit,
            ", ".join(repr(a) for a in self.axes),
        )

    def names(self):
        return [a.name for a in self.axes]

    def ax(self, name):
        return self.axes[self.names().index(name)]

    def index(self, name):
        return self.names().index(name)

    @property
    def full(self):
        v = self.values
        for i, a in enumerate(self.axes):
            v = a.expand(v, i)
        return v

    def cls(self):
        return ",".join(a.cls() for a in self.axes) + ";" + self.values.dtype.kind

    def _class(self):
        n = self.names()
        if "freqs" in n or "wavenumber" in n:
            return DataFreq
        if "time" in n or "angle" in n:
            return DataTime
        return DataND

    def build(self, axes=None, values=None):
        kw = dict(
            symbol=self.symbol,
            name=self.name,
            unit=self.unit,
            axes=[a.build() for a in self.axes] if axes is None else axes,
            values=self.values.copy() if values is None else values,
        )
        if self.norms:
            kw["normalizations"] = {k: f() for k, f in self.norms.items()}
        if not self.is_real:
            kw["is_real"] = False
        return self._class()(**kw)

    def build_full(self):
        return self.build(axes=[a.build_full() for a in self.axes], values=self.full.copy())


# ------------------------------------------------------------------ random axes
def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


def rnd(rng, lo, hi, nd=3):
    """Random number with few significant digits (so that text requests are exact)"""
    return float(round(lo + (hi - lo) * rng.random(), nd))


SPAN = {"time": 0.8, "angle": 2 * np.pi, "z": 1.5, "freqs": 1200.0, "wavenumber": 12.0, "speed": 3000.0, "order": 40.0, "load": 9.0, "position": 4.0, "r": 0.5}


def lin_axis(rng, name, n, start=0.0, step=None, how=None, unit=None):
    """DataLinspace described in one of its equivalent ways"""
    unit = unit or AX_BASE.get(name, "m")
    if step is None:
        step = SPAN.get(name, 1.0) / n
    how = how or pick(rng, ["nend", "nopen", "stepopen", "stepend", "numstep"])
    if n == 1:
        how = "nopen"
    lin = {"how": how, "initial": start}
    if how == "nend":
        lin.update(final=start + step * (n - 1), number=n, include_endpoint=True)
    elif how == "nopen":
        lin.update(final=start + step * n, number=n, include_endpoint=False)
    elif how == "stepopen":
        lin.update(final=start + step * n, step=step, include_endpoint=False)
    elif how == "stepend":
        lin.update(final=start + step * (n - 1), step=step, include_endpoint=True)
    elif how == "numstep":
        lin.update(number=n, step=step, include_endpoint=chance(rng, 0.5))
    a = Ax(name, unit, start + step * np.arange(n), "lin")
    a.lin = lin
    return a


def axis_1d(rng, name, n, start=0.0, uniform=True, unit=None, step=None):
    unit = unit or AX_BASE.get(name, "m")
    span = SPAN.get(name, 1.0)
    if step is not None:
        x = start + step * np.arange(n)
    elif uniform:
        x = start + span / n * np.arange(n)
    else:
        d = 0.3 + rng.random(n)
        x = start + span * (np.cumsum(d) - d[0]) / d.sum()
        if n > 2 and np.max(np.abs(x - np.linspace(x[0], x[-1], n))) < 5e-3 * np.min(np.diff(x)):
            # clearly irregular
            x[1] += 0.05 * (x[2] - x[1])
    return Ax(name, unit, x, "1d")


def pattern_axis(rng, name="z", step=False, unit=None):
    unit = unit or AX_BASE.get(name, "m")
    if step:
        # k segments described by their two ends, values repeated
        k = int(rng.integers(1, 5))
        m = int(rng.integers(1, k + 1))
        edges = np.cumsum(np.concatenate([[rnd(rng, -1, 1)], 0.2 + rng.random(k)]))
        edges = np.round(edges, 4)
        whole = np.repeat(edges, 2)[1:-1]
        which = list(range(m)) + [int(i) for i in rng.integers(0, m, k - m)]
        rebuild = [i for i in which for _ in (0, 1)]
        a = Ax(name, unit, whole[:m].copy() if m > 1 else whole[:1].copy(), "pat")
        a.stored = np.array([0.5 * (whole[2 * which.index(j)] + whole[2 * which.index(j) + 1]) for j in range(m)])
        a.whole = whole
        a.is_step = True
    else:
        m = int(rng.integers(1, 4))
        k = int(rng.integers(m, 8))
        which = list(range(m)) + [int(i) for i in rng.integers(0, m, k - m)]
        x = np.round(rnd(rng, -1, 1) + np.cumsum(0.1 + rng.random(k)), 4)
        a = Ax(name, unit, x[:m].copy(), "pat")
        a.whole = x
        rebuild = which
    a.sym = "pattern"
    a.rebuild = rebuild
    return a


LABELS = ["radial", "tangential", "axial", "p1", "p2 ", "yoke", "tooth", "slot-1", "slot-2", "wedge"]


def comp_axis(rng, name="phase", n=None):
    n = n or int(rng.integers(1, 5))
    labels = [LABELS[i] for i in rng.permutation(len(LABELS))[:n]]
    labels = [s.strip() for s in labels]
    a = Ax(name, "dimless", np.arange(n), "comp")
    a.labels = labels
    return a


def any_axis(rng, name, sym=None, n=None, uniform=None, start=None, one=0.06, maxn=9):
    """Any axis named name; sym in None/'period'/'antiperiod'/'pattern'/'any'"""
    if sym == "any":
        sym = pick(rng, [None, "period", "antiperiod"] + (["pattern"] if name == "z" else []))
    if sym == "pattern":
        return pattern_axis(rng, name, step=chance(rng, 0.4))
    if n is None:
        n = 1 if chance(rng, one) else int(rng.integers(2, maxn))
    if start is None:
        start = 0.0 if chance(rng, 0.5) else rnd(rng, -2, 2) * SPAN.get(name, 1.0) / 4
    if uniform is None:
        uniform = chance(rng, 0.7)
    if sym and len_ok(n) is False:
        n = 2
    if uniform and chance(rng, 0.6):
        a = lin_axis(rng, name, n, start)
    else:
        a = axis_1d(rng, name, n, start, uniform)
    if sym:
        a.sym = sym
        a.n = int(rng.integers(2, 6)) if sym == "period" else int(2 * rng.integers(1, 4))
        if n == 1:
            a.delta = rnd(rng, 0.1, 2)
    return a


def len_ok(n):
    return n >= 1


def values_for(rng, axes, kind=None):
    shape = tuple(len(a.stored) for a in axes)
    kind = kind or pick(rng, ["f", "f", "f", "c", "i"])
    if kind == "f":
        return rng.standard_normal(shape) * 10.0 ** rng.integers(-2, 3)
    if kind == "c":
        return rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    return rng.integers(-50, 50, shape)


KEYWORDS = ["lamination", "permeance", "sum_load", "terms", "maximum", "timestep", "angle_error", "zone", "pattern_id", "oneperiod", "integrated", "axis_data"]


def any_field(rng, syms=None, naxes=None, pool=None, kind=None, unit=None, comp=0.15, **kw):
    """Random field; syms: None for no symmetry, 'any' for symmetries drawn per axis"""
    if naxes is None:
        naxes = int(rng.integers(1, 5))
    renamed = pool is None and chance(rng, 0.15)
    pool = list(pool or ["time", "angle", "z", "speed", "load", "position", "r"])
    names = [pool[i] for i in rng.permutation(len(pool))[:naxes]]
    axes = []
    for nm in names:
        s = syms
        if syms == "any":
            s = pick(rng, [None, "period", "antiperiod"] + (["pattern", "pattern"] if nm == "z" else []))
            if nm not in ("time", "angle", "z"):
                s = None
        a = any_axis(rng, nm, sym=s, **kw)
        if renamed and nm not in ("time", "angle", "z"):
            # name holding a keyword or the name of another axis
            a.name = pick(rng, [x for x in KEYWORDS if x not in [b.name for b in axes]])
        axes.append(a)
    if comp and chance(rng, comp) and naxes < 4:
        axes.insert(int(rng.integers(len(axes) + 1)), comp_axis(rng))
    unit = unit or pick(rng, list(FUNITS))
    return Fld(axes, values_for(rng, axes, kind), symbol=pick(rng, ["B", "B_r", "F", "X_{rad}"]), unit=unit)


def reordered(rng, fld, p=0.7):
    """The same kind of field with axes listed in decreasing (or any) order"""
    for a in fld.axes:
        if a.labels is not None or a.sym is not None or len(a.stored) < 2 or not chance(rng, p):
            continue
        n = len(a.stored)
        if a.lin is not None:
            x = a.stored
            step = x[1] - x[0]
            a.stored = x[-1] - step * np.arange(n)
            a.lin = {"how": "falling", "initial": float(x[-1])}
            w = pick(rng, ["nend", "nopen", "numstep"])
            if w == "nend":
                a.lin.update(final=float(x[-1] - step * (n - 1)), number=n, include_endpoint=True)
            elif w == "nopen":
                a.lin.update(final=float(x[-1] - step * n), number=n, include_endpoint=False)
            else:
                a.lin.update(step=-step, number=n)
        elif n > 2 and chance(rng, 0.3):
            a.stored = a.stored[rng.permutation(n)]
        else:
            a.stored = a.stored[::-1].copy()
    return fld


def norm_funcs():
    return {"ref": Norm_ref, "affine": Norm_affine, "func": Norm_func, "indices": Norm_indices, "vector": Norm_vector}
