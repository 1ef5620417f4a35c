"""C13: decibel levels and A-weighting"""
import numpy as np

from SciDataTool.Functions import conversions
from checks.c07 import fourier_field, line_axis
from checks.common import shuffled
from mon.gen import Ax, Data1D, Fld, Norm_affine, Norm_func, Norm_ref, Norm_vector, any_axis, any_field, chance, comp_axis, lin_axis, pick, ratio, rnd, values_for
from mon.ref import TR, extract, make_req, spectrum

RULE = (
    "random field (any reference value, power or amplitude unit), levels of stored values and of spectra computed from time or "
    "stored, in dB and dBA, frequency axis at any position, sliced, displayed in Hz, kHz or normalized, speed and order axes, "
    "sums along the frequencies, requests without any frequency; compared with the level definition evaluated sample by "
    "sample; distinct = axis classes x unit x display of the frequencies x request kinds"
)

UNITS = ["Pa", "T", "N", "W", "mW", "kW", "m/s2", "V", "A"]


def level(m, unit, ref):
    """Level of magnitudes m"""
    m = np.abs(np.asarray(m, dtype=complex if np.iscomplexobj(m) else float))
    k = 10.0 if unit in ("W", "mW", "kW") else 20.0
    out = np.zeros(m.shape)
    for i in np.ndindex(m.shape):
        x = m[i]
        if ref != 1.0 and x < ref:
            x = ref
        out[i] = 0.0 if x == 0 else k * np.log10(x / ref)
    return out


def aweight(f):
    """IEC 61672 curve"""
    f = np.atleast_1d(np.asarray(f, dtype=float))
    out = np.empty(f.shape)
    for i, x in enumerate(f):
        if x == 0:
            out[i] = -100.0
            continue
        ra = 12200.0**2 * x**4 / ((x**2 + 20.6**2) * np.sqrt((x**2 + 107.7**2) * (x**2 + 737.0**2)) * (x**2 + 12200.0**2))
        out[i] = 2.0 + 20 * np.log10(ra)
    return out


def reference(rng, fld):
    ref = float(pick(rng, [1.0, 2e-5, 1e-3, 0.5, 1e-12, 40.0]))
    given = ref != 1.0 or chance(rng, 0.3)
    if given:
        plain = chance(rng, 0.3)
        fld.norms = {"ref": (lambda: ref) if plain else (lambda: Norm_ref(ref=ref))}
    return ref


def plain(case):
    """Levels of stored values"""
    rng = case.rng
    fld = any_field(rng, syms="any", unit=pick(rng, UNITS), kind=pick(rng, ["f", "f", "c"]), pool=["angle", "z", "load", "position", "time", "speed"])
    ref = reference(rng, fld)
    if chance(rng, 0.15):
        fld.values = fld.values * pick(rng, [1e-9, 1e-14, 1e-20, 1e9])
    if chance(rng, 0.3):
        fld.values[tuple(int(rng.integers(n)) for n in fld.values.shape)] = 0
    D = case.lib(fld.build)
    for a in fld.axes:
        # the levels are extracted with recomputed speeds: no bound exactly on a sample
        if a.name == "speed":
            a.lin = a.lin or {"how": "extract"}
    reqs = [make_req(rng, a, ["whole", "idx", "list", "range", "interval"] if not a.is_step else ["whole", "idx"]) for a in fld.axes if chance(rng, 0.85)]
    if not reqs:
        reqs = [make_req(rng, fld.axes[0], ["whole"])]
    exp, coords = extract(fld, reqs)
    args = shuffled(rng, [r.text for r in reqs])
    mag = chance(rng, 0.5)
    case.log(fld, "ref", ref)
    case.log("dB", args, "magnitude" if mag else "field")
    res = case.lib(D.get_magnitude_along if mag else D.get_along, *args, unit="dB", is_squeeze=False)
    L = level(exp, fld.unit, ref)
    sliced = mag and any(r.name == "speed" and r.text.split("{")[0] != "speed" for r in reqs) and "time" not in fld.names()
    if sliced:
        # sliced from the object holding the levels: levels below 2 dB read 0, axes not requested are dropped
        L[L < 2] = 0
    case.eq(res[fld.symbol], L, "level %s" % args, atol=1e-9, shape=not sliced)
    for r in reqs:
        if r.kind == "take":
            case.eq(np.atleast_1d(res[r.name]), coords[r.name], "axis %s" % r.name)
    if "time" in fld.names() or "speed" in fld.names():
        case.sig(fld.cls(), fld.unit, ref, mag)
        return
    case.raises("dBA of data without frequencies", D.get_along, *args, unit="dBA")
    case.raises("dBA magnitude of data without frequencies", D.get_magnitude_along, *args, unit="dBA")
    case.sig(fld.cls(), fld.unit, ref, mag)


def show(rng, a, ln, stored):
    """How the frequency axis is displayed: suffix, coordinates for given lines"""
    how = pick(rng, ["Hz", "Hz", "kHz", "ref", "affine", "func"])
    if how == "Hz":
        return how, "freqs", ln
    if how == "kHz":
        return how, "freqs{kHz}", ln * 1e-3
    if how == "ref":
        a.norms = {"elec_order": lambda ax, full: Norm_ref(ref=7.0)}
        return how, "freqs->elec_order", ln / 7.0
    if how == "affine":
        a.norms = {"law": lambda ax, full: Norm_affine(slope=0.5, offset=100.0)}
        return how, "freqs->law", ln * 0.5 + 100.0
    a.norms = {"fun": lambda ax, full: Norm_func(function=lambda x: x * 3 + 1)}
    return how, "freqs->fun", ln * 3 + 1


def spectral_field(rng, stored):
    """Field with frequencies: computed from time or stored; its components, lines and index of the frequency axis"""
    if not stored:
        fld = fourier_field(rng, names=pick(rng, [["time"], ["time", "angle"]]), cplx=0.0, circle=True)
        # audible range
        t = fld.ax("time")
        T = pick(rng, [0.1, 0.01, 0.5])
        k = T / (len(t.stored) * (t.stored[1] - t.stored[0])) if len(t.stored) > 1 else 1.0
        st = (t.stored[1] - t.stored[0]) * k if len(t.stored) > 1 else 1.0
        b = lin_axis(rng, "time", len(t.stored), 0.0, step=st)
        b.sym, b.n, b.delta = t.sym, t.n, t.delta
        fld.axes[fld.index("time")] = b
        ft = ["time"] + [n for n in fld.names() if n == "angle" and chance(rng, 0.5)]
        v, lines = spectrum(fld, ft)
        return fld, v, lines, fld.index("time"), "time", ft
    names = shuffled(rng, ["freqs"] + pick(rng, [[], ["z"], ["load"], ["speed"], ["z", "load"], ["timestep"]]))
    axes = []
    for nm in names:
        if nm == "freqs":
            n = int(rng.integers(2, 12))
            if chance(rng, 0.5):
                a = lin_axis(rng, "freqs", n, start=pick(rng, [0.0, 50.0]), step=pick(rng, [10.0, 123.5, 1000.0]))
            elif chance(rng, 0.3):
                # Integer frequencies
                a = Ax("freqs", "Hz", np.sort(rng.permutation(12000)[:n]))
                if chance(rng, 0.5):
                    a.stored[0] = 0
            else:
                a = Ax("freqs", "Hz", np.sort(np.round(rng.random(n) * 12000, 2)) + np.arange(n) * 0.5)
            axes.append(a)
        else:
            axes.append(any_axis(rng, nm))
    if chance(rng, 0.15):
        axes.insert(int(rng.integers(len(axes) + 1)), comp_axis(rng))
    fld = Fld(axes, values_for(rng, axes, pick(rng, ["c", "f"])))
    return fld, fld.full, {"freqs": fld.ax("freqs").stored}, fld.index("freqs"), "freqs", ["freqs"]


def spectra(case):
    rng = case.rng
    stored = chance(rng, 0.5)
    fld, v, lines, i, src, ft = spectral_field(rng, stored)
    fld.unit = pick(rng, UNITS)
    ref = reference(rng, fld)
    a = fld.axes[i]
    how, name, shown = show(rng, a, lines["freqs"], stored)
    D = case.lib(fld.build)
    unit = pick(rng, ["dB", "dBA", "dBA"])
    mag = chance(rng, 0.5)
    # slices of the frequency axis
    b = line_axis("freqs", shown)
    r = make_req(rng, b, ["whole", "whole", "idx", "range", "list", "interval", "above"], unit_p=0)
    text = r.text[len("freqs"):]
    if "{" in name:
        text = "freqs" + text + "{kHz}"
    else:
        text = name + text
    texts = [text]
    w = np.take(v, r.idx, axis=i)
    f = lines["freqs"][r.idx]
    for j, ax in enumerate(fld.axes):
        if j == i:
            continue
        if ax.name in ft:
            texts.append(TR[ax.name])
        elif chance(rng, 0.8):
            q = make_req(rng, ax, ["whole", "whole", "idx"] + ([] if ax.sym == "pattern" else ["range"]))
            texts.append(q.text)
            w = np.take(w, q.idx, axis=j)
        else:
            w = np.take(w, [0], axis=j)
    args = shuffled(rng, texts)
    case.log(fld, "ref", ref)
    case.log(unit, args, "magnitude" if mag else "field")
    res = case.lib(D.get_magnitude_along if mag else D.get_along, *args, unit=unit, is_squeeze=False)
    atol = 1e-7
    # amplitudes at the level of rounding errors have no defined level
    L = level(w, fld.unit, ref)
    ok = np.abs(w) > 1e-9 * np.max(np.abs(fld.values))
    if ref != 1.0:
        ok |= np.abs(w) < ref * 0.999
        ok &= np.abs(w) > 1e-12 * np.max(np.abs(fld.values)) if ref < 1e-9 else ok
    if unit == "dBA":
        L = L + aweight(f).reshape([-1 if j == i else 1 for j in range(w.ndim)])
    g = np.asarray(res[fld.symbol])
    case.true(g.shape == L.shape, "shape", got=g.shape, expected=L.shape)
    case.eq(np.where(ok, g, 0), np.where(ok, L, 0), "levels in %s of %s" % (unit, args), atol=atol)
    case.eq(np.atleast_1d(res["freqs"]), shown[r.idx], "frequencies as displayed", atol=1e-9)
    case.run.count("levels compared", int(ok.sum()))
    case.sig(fld.cls(), unit, how, ref, mag, i, text[: len(name) + 1])


def sums(case):
    """Sum of levels along the frequencies"""
    rng = case.rng
    stored = chance(rng, 0.6)
    fld, v, lines, i, src, ft = spectral_field(rng, stored)
    fld.unit = pick(rng, UNITS)
    ref = reference(rng, fld)
    # every line well above the reference
    if stored:
        s = (3 + 40 * rng.random(fld.values.shape)) * max(ref, 1e-9) * 10 ** pick(rng, [3, 4])
        fld.values = s * np.exp(1j * 6 * rng.random(s.shape)) if chance(rng, 0.5) else s
        v = fld.full
    else:
        k = max(ref, 1e-9) * 1e5 / np.max(np.abs(fld.values))
        fld.values = fld.values * k
        v = v * k
    D = case.lib(fld.build)
    unit = pick(rng, ["dB", "dBA", "dBA"])
    op = pick(rng, ["sum", "rss"])
    texts = ["freqs=" + op]
    w = v
    for j, ax in enumerate(fld.axes):
        if j == i:
            continue
        if ax.name in ft:
            texts.append(TR[ax.name])
        elif chance(rng, 0.8):
            q = make_req(rng, ax, ["whole", "whole", "idx"] + ([] if ax.sym == "pattern" else ["range"]))
            texts.append(q.text)
            w = np.take(w, q.idx, axis=j)
        else:
            w = np.take(w, [0], axis=j)
    L = level(w, fld.unit, ref)
    if np.min(np.abs(w)) < 1e-9 * np.max(np.abs(fld.values)) and ref < 1e-10:
        return
    if unit == "dBA":
        L = L + aweight(lines["freqs"]).reshape([-1 if j == i else 1 for j in range(w.ndim)])
    tot = np.zeros([1 if j == i else n for j, n in enumerate(L.shape)])
    for j in range(L.shape[i]):
        tot = tot + 10 ** (np.take(L, [j], axis=i) / 10)
    tot = 10 * np.log10(tot)
    if np.min(tot) < 3 or np.any(np.abs(w) <= 1e-12 * np.max(np.abs(fld.values))):
        return
    args = shuffled(rng, texts)
    case.log(fld, "ref", ref)
    case.log(unit, args)
    res = case.lib(D.get_magnitude_along, *args, unit=unit)
    case.eq(np.asarray(res[fld.symbol]), tot, "sum of levels in %s of %s" % (unit, args), shape=False, atol=1e-7)
    case.eq(np.squeeze(np.asarray(res[fld.symbol])), np.squeeze(tot), "sum of levels in %s of %s" % (unit, args), atol=1e-7)
    case.sig(fld.cls(), unit, op, i, len(texts))


def speed_order(case):
    """Frequencies given by speed and order"""
    rng = case.rng
    ns, no = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    norm = chance(rng, 0.3)
    speed = np.round(np.linspace(600, 6000, ns) + rng.random(ns), 2)
    orders = [int(k) for k in np.sort(rng.permutation(60)[:no])]
    labels = ["H%d" % k if chance(rng, 0.5) else "H%d;mode %d" % (k, i) for i, k in enumerate(orders)]
    o = comp_axis(rng, "order", 1)
    o.labels, o.stored = labels, np.arange(no)
    if norm:
        s = Ax("revolution", "dimless", np.arange(ns) * 1.0)
        s.norms = {"speed": lambda ax, full: Norm_vector(vector=speed.copy())}
        stext = "revolution->speed"
    else:
        s = Ax("speed", "rpm", speed)
        stext = "speed"
    axes = shuffled(rng, [s, o] + [any_axis(rng, nm) for nm in pick(rng, [[], ["load"], ["load", "position"]])])
    fld = Fld(axes, np.abs(values_for(rng, axes, "f")) * 1000, unit=pick(rng, UNITS))
    ref = reference(rng, fld)
    D = case.lib(fld.build)
    unit = pick(rng, ["dB", "dBA", "dBA"])
    i, j = axes.index(s), axes.index(o)
    L = level(fld.full, fld.unit, ref)
    if unit == "dBA":
        for p in np.ndindex(L.shape):
            L[p] += aweight(speed[p[i]] * orders[p[j]] / 60.0)[0]
    args, mag = [], not norm and chance(rng, 0.5)
    for k, a in enumerate(axes):
        if a in (s, o) or chance(rng, 0.7):
            r = make_req(rng, a, ["whole", "whole", "idx", "list", "range"] if not mag and not norm and not a.sym else ["whole"], unit_p=0)
            args.append(r.text if a is not s or not norm else stext)
            L = np.take(L, r.idx, axis=k)
        else:
            L = np.take(L, [0], axis=k)
    args = shuffled(rng, args)
    case.log(fld, "ref", ref)
    case.log(unit, args, "magnitude" if mag or norm else "field")
    res = case.lib(D.get_magnitude_along if mag or norm else D.get_along, *args, unit=unit, is_squeeze=False)
    case.eq(np.asarray(res[fld.symbol]), L, "levels in %s of %s" % (unit, args), atol=1e-8)
    case.sig(fld.cls(), unit, norm, ref, mag, i, j)


def stored_unit(case):
    """Frequencies stored in another unit than Hz, axis named frequency"""
    rng = case.rng
    n = int(rng.integers(2, 12))
    nm = pick(rng, ["freqs", "frequency"])
    un = pick(rng, ["Hz", "kHz"])
    f = np.round(np.linspace(20, 9000, n) + rng.random(n), 2)
    a = Ax(nm, un, f * ratio("Hz", un))
    o = any_axis(rng, "load")
    axes = [a, o] if chance(rng, 0.5) else [o, a]
    fld = Fld(axes, values_for(rng, axes, "f"), unit=pick(rng, UNITS))
    ref = reference(rng, fld)
    D = case.lib(fld.build)
    i = fld.index(nm)
    shown = pick(rng, ["", "", "{Hz}", "{kHz}"])
    L = level(fld.full, fld.unit, ref) + aweight(f).reshape([-1 if j == i else 1 for j in range(2)])
    args = shuffled(rng, [nm + shown, "load"])
    case.log(fld, "ref", ref)
    case.log("dBA", args)
    mag = chance(rng, 0.5)
    res = case.lib(D.get_magnitude_along if mag else D.get_along, *args, unit="dBA", is_squeeze=False)
    case.eq(res[fld.symbol], L, "levels in dBA of %s" % args, atol=1e-8)
    case.eq(res[nm], f * (1e-3 if shown == "{kHz}" or (shown == "" and un == "kHz") else 1.0), "frequencies as displayed")
    case.sig(fld.cls(), un, shown, nm, mag)


def declared(case):
    """Weighting declared with the field, over its first axes"""
    rng = case.rng
    names = shuffled(rng, ["freqs", "load", "position", "z"])[: int(rng.integers(1, 4))]
    axes = [Ax("freqs", "Hz", np.cumsum(rng.integers(1, 900, int(rng.integers(2, 7)))) * 1.0) if nm == "freqs" else any_axis(rng, nm) for nm in names]
    fld = Fld(axes, np.abs(values_for(rng, axes, "f")) + 1, unit=pick(rng, UNITS))
    ref = float(pick(rng, [1.0, 2e-5, 1e-3]))
    m = int(rng.integers(1, len(axes) + 1))
    wgt = np.round(rng.normal(-10, 10, [len(a.stored) for a in axes[:m]]), 2)
    fld.norms = {"A-weight": lambda: Norm_vector(vector=wgt.copy())}
    if ref != 1.0:
        fld.norms["ref"] = lambda: Norm_ref(ref=ref)
    D = case.lib(fld.build)
    reqs = [make_req(rng, a, ["whole", "whole", "idx", "list", "range"], unit_p=0) for a in axes if a in axes[:m] or chance(rng, 0.8)]
    L = level(fld.full, fld.unit, ref) + wgt.reshape(wgt.shape + (1,) * (len(axes) - m))
    L = extract(fld, reqs, values=L)[0]
    args = shuffled(rng, [r.text for r in reqs])
    case.log(fld, "ref", ref, "weighting over", m)
    case.log("dBA", args)
    res = case.lib(D.get_magnitude_along, *args, unit="dBA", is_squeeze=False)
    case.eq(np.asarray(res[fld.symbol]), L, "levels in dBA of %s" % args, atol=1e-8)
    case.sig(fld.cls(), m, tuple(r.kind for r in reqs))


def renamed(case):
    """Levels do not depend on the name of an axis that is not a frequency"""
    rng = case.rng
    fld, v, lines, i, src, ft = spectral_field(rng, True)
    fld.axes = [a for a in fld.axes if a.name in ("freqs", "z")] + [any_axis(rng, "load", one=0)]
    fld.values = (3 + 40 * rng.random([len(a.stored) for a in fld.axes])) * 1e3
    fld.unit = pick(rng, UNITS)
    ref = reference(rng, fld)
    unit, op = pick(rng, ["dB", "dBA"]), pick(rng, ["sum", "rss", "max", "mean"])
    args = shuffled(rng, [a.name for a in fld.axes[:-1]] + ["load=" + op])
    case.log(fld, "ref", ref)
    case.log(unit, args)
    exp = case.lib(case.lib(fld.build).get_magnitude_along, *args, unit=unit)[fld.symbol]
    other = pick(rng, ["timestep", "lifetime", "frequency_band", "nfreqs", "summary"])
    fld.axes[-1].name = other
    res = case.lib(case.lib(fld.build).get_magnitude_along, *[t.replace("load", other) for t in args], unit=unit)
    case.eq(np.asarray(res[fld.symbol]), np.asarray(exp), "levels in %s of %s with load called %s" % (unit, args, other), atol=1e-9)
    case.sig(fld.cls(), unit, op, other)


def functions(case):
    """Levels of plain numbers and arrays"""
    rng = case.rng
    unit, ref = pick(rng, UNITS), float(pick(rng, [1.0, 2e-5, 1e-3, 40.0]))
    m = np.abs(rng.standard_normal(tuple(rng.integers(1, 5, int(rng.integers(1, 4)))))) * 10 ** float(rng.integers(-4, 4))
    if chance(rng, 0.3):
        m.flat[0] = 0
    exp = level(m, unit, ref)
    case.log("level", m, unit, ref)
    case.eq(case.lib(conversions.to_dB, m.copy(), unit, ref), exp, "levels of an array in %s" % unit, atol=1e-9)
    case.eq(np.asarray(case.lib(conversions.to_dB, float(m.flat[-1]), unit, ref)).ravel(), [exp.flat[-1]], "level of a number in %s" % unit, atol=1e-9)
    f = np.cumsum(rng.random(m.size) * 2000) * (0 if chance(rng, 0.05) else 1)
    A = aweight(f)
    case.eq(case.lib(conversions.to_dBA, m.ravel().copy(), f.copy(), unit, ref), exp.ravel() + A, "weighted levels", atol=1e-9)
    case.eq(case.lib(conversions.dB_to_dBA, exp.ravel().copy(), f.copy()), exp.ravel() + A, "levels weighted", atol=1e-9)
    case.sig(unit, ref, m.ndim)


SCENARIOS = [
    ("functions", functions, 400, 6000),
    ("declared", declared, 200, 4500),
    ("plain", plain, 1400, 24000),
    ("spectra", spectra, 3000, 48000),
    ("sums", sums, 1000, 18000),
    ("renamed", renamed, 100, 2100),
    ("speed_order", speed_order, 400, 7500),
    ("stored_unit", stored_unit, 300, 6000),
]
