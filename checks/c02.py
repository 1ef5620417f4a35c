"""C02: extraction returns exactly the requested samples"""
import numpy as np

from checks.common import check_extraction, shuffled
from mon.gen import Ax, Fld, any_field, chance, pick, reordered, values_for
from mon.ref import Req, make_req, num

RULE = (
    "random field (1-4 axes among time, angle, z, speed, load, position and label axes; regular or irregular; "
    "float, complex or integer values) and random request mixing whole axes, indices, lists, ranges, values, "
    "intervals, bounds, units and omitted axes, in random order; distinct = axis classes x request kinds"
)
KINDS = ["whole", "idx", "neg", "list", "range", "val", "interval", "above", "below", "all"]


def mixed(case):
    rng = case.rng
    fld = any_field(rng)
    case.log(fld)
    D = case.lib(fld.build)
    for _ in range(3):
        reqs = []
        for a in fld.axes:
            if chance(rng, 0.82):
                reqs.append(make_req(rng, a, KINDS))
        if not reqs:
            reqs.append(make_req(rng, fld.axes[0], KINDS))
        check_extraction(case, D, fld, reqs)
        case.sig(fld.cls(), sorted((r.name, r.text[:len(r.name) + 1], len(r.idx) > 1, r.unit) for r in reqs))


def one_kind(case):
    """Every kind of request on every position of the axis, others whole"""
    rng = case.rng
    kind = KINDS[case.index % len(KINDS)]
    n = 1 + (case.index // len(KINDS)) % 4
    fld = any_field(rng, naxes=n, comp=0)
    i = int(rng.integers(n))
    case.log(fld)
    D = case.lib(fld.build)
    reqs = [make_req(rng, a, [kind] if j == i else ["whole"]) for j, a in enumerate(fld.axes)]
    check_extraction(case, D, fld, reqs)
    case.sig(kind, n, i, fld.axes[i].cls())


def missing(case):
    """A single value outside the axis gives missing values"""
    rng = case.rng
    fld = any_field(rng, kind="f", comp=0, one=0)
    case.log(fld)
    D = case.lib(fld.build)
    i = int(rng.integers(len(fld.axes)))
    reqs = [make_req(rng, a, ["out"] if j == i else ["whole", "idx", "range"]) for j, a in enumerate(fld.axes)]
    check_extraction(case, D, fld, reqs)
    case.sig(len(fld.axes), i, fld.axes[i].cls())


def falling(case):
    """Axes listed in decreasing or any order"""
    rng = case.rng
    fld = reordered(rng, any_field(rng, kind=pick(rng, ["f", "c"]), comp=0.1))
    case.log(fld)
    D = case.lib(fld.build)
    for _ in range(2):
        reqs = [make_req(rng, a, KINDS) for a in fld.axes if chance(rng, 0.85)] or [make_req(rng, fld.axes[0], KINDS)]
        check_extraction(case, D, fld, reqs)
        case.sig(fld.cls(), sorted((r.name, r.text[: len(r.name) + 1], len(r.idx) > 1) for r in reqs))
    ok = [i for i, a in enumerate(fld.axes) if a.labels is None and len(a.stored) > 1]
    if ok and fld.values.dtype.kind == "f":
        i = pick(rng, ok)
        check_extraction(case, D, fld, [make_req(rng, a, ["out"] if j == i else ["whole", "idx"]) for j, a in enumerate(fld.axes)])


def freq_data(case):
    """The same on stored spectra"""
    rng = case.rng
    fld = any_field(rng, pool=["freqs", "wavenumber", "z", "speed"], naxes=int(rng.integers(1, 4)), kind="c", comp=0.1)
    if not set(fld.names()) & {"freqs", "wavenumber"}:
        fld = any_field(rng, pool=["freqs", "wavenumber"], naxes=2, kind="c", comp=0)
    # symbols with these letters would be taken for the transformed axes
    case.log(fld)
    D = case.lib(fld.build)
    kinds = ["whole", "idx", "list", "range", "interval", "above", "below"]
    reqs = []
    for a in fld.axes:
        if a.name in ("freqs", "wavenumber") or chance(rng, 0.8):
            reqs.append(make_req(rng, a, kinds))
    check_extraction(case, D, fld, reqs)
    case.sig(fld.cls(), sorted((r.name, r.text[: len(r.name) + 1]) for r in reqs))


def edges(case):
    """Bounds exactly on samples, in the stored unit or in another one"""
    rng = case.rng
    name, unit, other = pick(rng, [("load", "A", "mA"), ("z", "m", "mm"), ("time", "s", "ms"), ("position", "m", "mm"), ("load", "mA", "A")])
    n = int(rng.integers(3, 9))
    x = (1000.0 if unit == "mA" else 1.0) * (np.cumsum(rng.integers(1, 4, n)) - int(rng.integers(0, 9)))
    a = Ax(name, unit, x, "1d")
    rest = [b for b in any_field(rng, comp=0.2, naxes=int(rng.integers(1, 3))).axes if b.name != name]
    axes = shuffled(rng, [a] + rest)
    fld = Fld(axes, values_for(rng, axes, pick(rng, ["f", "c"])))
    case.log(fld)
    D = case.lib(fld.build)
    u = pick(rng, [None, other, other])
    scale = 1.0 if u is None else (0.001 if unit == "mA" else 1000.0)
    suffix = "" if u is None else "{" + u + "}"
    i, j = sorted(int(k) for k in rng.choice(n, 2, replace=False))
    xs = x / 1000 if scale == 0.001 else x * scale
    kind = pick(rng, ["interval", "above", "below"])
    if kind == "interval":
        text, idx = "%s=[%s,%s]" % (name, num(xs[i]), num(xs[j])), list(range(i, j + 1))
    elif kind == "above":
        text, idx = "%s>%s" % (name, num(xs[j])), list(range(j, n))
    else:
        text, idx = "%s<%s" % (name, num(xs[i])), list(range(0, i + 1))
    req = Req(name, "take", text + suffix, idx=idx, unit=u, scale=scale)
    check_extraction(case, D, fld, [req] + [make_req(rng, b, KINDS) for b in rest if chance(rng, 0.7)])
    case.sig(kind, u, fld.cls(), i == 0, j == n - 1)


SCENARIOS = [
    ("mixed", mixed, 5600, 78000),
    ("one_kind", one_kind, 2250, 26000),
    ("missing", missing, 550, 6500),
    ("falling", falling, 850, 10400),
    ("freq_data", freq_data, 1700, 15600),
    ("edges", edges, 700, 7800),
]
