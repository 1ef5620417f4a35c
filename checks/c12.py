"""C12: normalizations"""
import copy

import numpy as np

from checks.c07 import fourier_field
from checks.common import shuffled
from mon.gen import (
    Ax,
    Fld,
    Norm_affine,
    Norm_func,
    Norm_indices,
    Norm_ref,
    Norm_vector,
    any_axis,
    any_field,
    chance,
    comp_axis,
    pick,
    rnd,
    values_for,
)
from mon.ref import TR, extract, make_req, spectrum

RULE = (
    "random field with normalizations (reference, affine, function, vector, indices; plain number or vector instead of the "
    "object) on its axes and on itself; normalized axes requested whole, by index, list, range, interval, bound or value in "
    "normalized coordinates, on one period, on Fourier lines, directly on the axis; field normalized by name or by its "
    "reference; undefined or mismatched normalizations; distinct = axis class x normalization kind x request kind"
)

FUNCS = [
    ("cube", lambda x: x**3 + x),
    ("exp", lambda x: np.exp(x / 50.0)),
    ("neg", lambda x: -2.0 * x + 1.0),
]


def cont(v, a, part):
    """Vector given on the stored part continued like the axis"""
    v = np.asarray(v, dtype=float)
    n = {"whole": a.n, "oneperiod": 2 if a.sym == "antiperiod" else 1, "smallest": 1}[part]
    if a.sym not in ("period", "antiperiod") or n == 1:
        return v
    if len(v) == 1:
        return v[0] + a.delta * np.arange(n)
    L = (v[-1] - v[0]) + (v[-1] - v[-2])
    return np.concatenate([v + k * L for k in range(n)])


def norm_of(rng, a, kinds=("ref", "affine", "func", "indices", "vector")):
    """(kind, object or plain value for the library, reference function of (coordinates, part))"""
    kind = pick(rng, list(kinds))
    unit = pick(rng, ["SI", "SI", a.unit])
    if kind == "ref":
        r = float(pick(rng, [0.25, 3.0, -2.0, 60.0, 1e-3, rnd(rng, 0.5, 4)]))
        obj = Norm_ref(ref=r, unit=unit)
        if chance(rng, 0.4):
            obj = pick(rng, [float(r), np.float64(r), int(3), np.int64(3), np.float32(2.5), np.int32(7)])
            r = float(obj)
        return kind, obj, lambda x, part: x / r
    if kind == "affine":
        s, o = float(pick(rng, [2.0, -0.5, 30.0])), rnd(rng, -3, 3)
        return kind, Norm_affine(slope=s, offset=o, unit=unit), lambda x, part: x * s + o
    if kind == "func":
        nm, f = pick(rng, FUNCS)
        return kind + nm, Norm_func(function=f, unit=unit), lambda x, part: f(x)
    if kind == "indices":
        return kind, Norm_indices(unit=unit), lambda x, part: np.arange(len(x))
    if a.sym == "pattern":
        v = np.cumsum(0.2 + rng.random(len(a.full))) + rnd(rng, -2, 2)
    else:
        v = np.cumsum(0.2 + rng.random(len(a.stored))) + rnd(rng, -2, 2)
    obj = Norm_vector(vector=v.copy(), unit=unit)
    if chance(rng, 0.4):
        obj = v.tolist() if chance(rng, 0.5) else v.copy()
    return kind, obj, lambda x, part: cont(v, a, part)


NAMES = ["elec_order", "tooth_id", "rel", "my norm", "angle_rotor"]


def axis_request(rng, a, x, nm, kinds):
    """Request on axis a in the normalized coordinates x"""
    b = Ax(a.name, "dimless", x, "1d")
    b.lin = {"how": "normalized"}
    r = make_req(rng, b, kinds, unit_p=0)
    r.text = a.name + "->" + nm + r.text[len(a.name):]
    return r


def axes(case):
    rng = case.rng
    fld = any_field(rng, syms="any", comp=0.0, kind=pick(rng, ["f", "f", "c"]))
    case.log(fld)
    nm = pick(rng, NAMES)
    chosen = [a for a in fld.axes if chance(rng, 0.7)] or [fld.axes[0]]
    kinds = {}
    for a in chosen:
        kind, obj, f = norm_of(rng, a)
        kinds[a.name] = (kind, f)
        a.norms = {nm: (lambda ax, full, obj=obj: copy.deepcopy(obj))}
        # another one that must not be mixed up
        a.norms["other"] = lambda ax, full: Norm_ref(ref=1234.5)
        case.log("normalization", a.name, nm, kind, obj if not hasattr(obj, "as_dict") else obj.__dict__)
    D = case.lib(fld.build)
    reqs = []
    for a in fld.axes:
        rk = ["whole", "idx", "list", "range", "interval", "above", "below", "val"]
        if a.is_step:
            rk = ["whole", "idx", "range"]
        if a.name in kinds:
            x = np.asarray(kinds[a.name][1](a.full, "whole"), dtype=float)
            if len(np.unique(np.round(x, 12))) < len(x):
                rk = ["whole", "idx", "list", "range"]
            reqs.append(axis_request(rng, a, x, nm, rk))
        elif chance(rng, 0.8):
            reqs.append(make_req(rng, a, ["whole", "idx", "range"]))
    exp = fld.full
    for r in reqs:
        exp = np.take(exp, r.idx, axis=fld.index(r.name))
    for i, a in enumerate(fld.axes):
        if a.name not in [r.name for r in reqs]:
            exp = np.take(exp, [0], axis=i)
    args = shuffled(rng, [r.text for r in reqs])
    case.log("get_along", args)
    res = case.lib(D.get_along, *args, is_squeeze=False)
    case.eq(res[fld.symbol], exp, "field of %s" % args)
    for r in reqs:
        a = fld.ax(r.name)
        if r.name in kinds and r.kind == "take":
            x = np.asarray(kinds[r.name][1](a.full, "whole"), dtype=float)
            case.eq(np.atleast_1d(res[r.name]), x[r.idx], "normalized axis %s of %s" % (r.name, args))
        elif r.kind == "take":
            case.eq(np.atleast_1d(res[r.name]), a.full[r.idx] * r.scale, "axis %s of %s" % (r.name, args))
        else:
            case.eq(np.atleast_1d(res[r.name]), [r.value], "requested value")
    case.sig(sorted((a.cls(), kinds[a.name][0]) for a in chosen), sorted(r.text.split("->")[-1][len(nm): len(nm) + 2] for r in reqs if "->" in r.text))


def parts(case):
    """One period, antiperiod and direct questions to the axis"""
    rng = case.rng
    fld = any_field(rng, syms="any", comp=0.0, naxes=int(rng.integers(1, 3)), kind="f")
    a = pick(rng, fld.axes)
    kind, obj, f = norm_of(rng, a)
    nm = pick(rng, NAMES)
    a.norms = {nm: (lambda ax, full, obj=obj: copy.deepcopy(obj)), "other": lambda ax, full: Norm_ref(ref=1234.5)}
    case.log(fld)
    case.log("normalization", a.name, nm, kind, obj)
    A = case.lib(a.build)
    whole = f(a.full, "whole")
    case.eq(case.lib(A.get_values, unit=nm), whole, "normalized axis by unit")
    case.eq(case.lib(A.get_values, normalization=nm), whole, "normalized axis by normalization")
    case.eq(case.lib(A.get_values, unit="other"), a.full / 1234.5, "other normalization")
    if not (a.sym == "pattern" and kind == "vector"):
        case.eq(case.lib(A.get_values, unit=nm, is_smallestperiod=True), f(a.stored, "smallest"), "normalized smallest part")
    if a.sym in ("period", "antiperiod"):
        case.eq(case.lib(A.get_values, unit=nm, is_oneperiod=True), f(a.oneperiod, "oneperiod"), "normalized period")
    if a.sym == "antiperiod":
        case.eq(case.lib(A.get_values, unit=nm, is_antiperiod=True), f(a.stored, "smallest"), "normalized antiperiod")
    case.eq(case.lib(A.get_values, unit=nm), whole, "normalized axis asked again")
    case.eq(case.lib(A.get_values), a.full, "axis without normalization")
    if a.sym in ("period", "antiperiod"):
        D = case.lib(fld.build)
        args = [a.name + "->" + nm + "[oneperiod]"] + [b.name for b in fld.axes if b is not a]
        case.log("get_along", args)
        res = case.lib(D.get_along, *args, is_squeeze=False)
        i = fld.index(a.name)
        case.eq(res[a.name], f(a.oneperiod, "oneperiod"), "normalized period of %s" % args)
        case.eq(res[fld.symbol], np.take(fld.full, range(len(a.oneperiod)), axis=i), "field on one period")
    case.sig(a.cls(), kind)


def fourier(case):
    """Normalized Fourier lines"""
    rng = case.rng
    fld = fourier_field(rng, circle=True)
    ft = [n for n in fld.names() if n in TR and chance(rng, 0.8)] or [[n for n in fld.names() if n in TR][0]]
    v, lines = spectrum(fld, ft)
    nm = pick(rng, NAMES)
    kinds = {}
    for a in fld.axes:
        if a.name in ft and (chance(rng, 0.8) or a.name == ft[0]):
            b = copy.copy(a)
            b.unit = "SI"
            kind, obj, f = norm_of(rng, b, ("ref", "ref", "affine", "func", "indices"))
            a.norms = {nm: (lambda ax, full, obj=obj: copy.deepcopy(obj)), "other": lambda ax, full: Norm_ref(ref=1234.5)}
            kinds[a.name] = (kind, f)
            case.log("normalization", a.name, nm, kind, obj if not hasattr(obj, "as_dict") else obj.__dict__)
    case.log(fld)
    D = case.lib(fld.build)
    texts, exp, coords = [], v, {}
    for i, a in enumerate(fld.axes):
        if a.name in ft:
            ln = lines[TR[a.name]]
            b = Ax(TR[a.name], "dimless", ln, "1d")
            if a.name in kinds:
                x = np.asarray(kinds[a.name][1](ln, "whole"), dtype=float)
                rk = ["whole", "whole", "idx", "range", "interval", "above"]
                # one-sided convention of wavenumbers alone, decided on the drawn coordinates
                if fld.is_real and a.name == "angle" and "time" not in ft:
                    rk = ["whole"]
                    if np.min(x) >= 0:
                        return
                r = axis_request(rng, b, x, nm, rk)
                coords[b.name] = x[r.idx]
            else:
                r = make_req(rng, b, ["whole"], unit_p=0)
                coords[b.name] = ln[r.idx]
            texts.append(r.text)
            exp = np.take(exp, r.idx, axis=i)
        else:
            texts.append(a.name)
    args = shuffled(rng, texts)
    case.log("get_along", args)
    res = case.lib(D.get_along, *args, is_squeeze=False)
    atol = 1e-10 * np.max(np.abs(fld.values))
    case.eq(res[fld.symbol], exp, "components of %s" % args, atol=atol)
    for n in coords:
        case.eq(np.atleast_1d(res[n]), coords[n], "normalized lines %s of %s" % (n, args), atol=1e-9)
    res = case.lib(D.get_magnitude_along, *args, is_squeeze=False)
    case.eq(res[fld.symbol], np.abs(exp), "magnitude of %s" % args, atol=atol)
    for n in coords:
        case.eq(np.atleast_1d(res[n]), coords[n], "normalized lines %s of %s" % (n, args), atol=1e-9)
    case.sig(fld.cls(), sorted((n, kinds[n][0]) for n in kinds), sorted(t.split("->")[-1][len(nm): len(nm) + 2] for t in texts if "->" in t))


def operations(case):
    """Reductions which do not depend on the coordinates, along a normalized axis"""
    rng = case.rng
    fld = any_field(rng, syms="any", comp=0.0, naxes=int(rng.integers(1, 4)), kind="f", one=0.0)
    cand = [a for a in fld.axes if a.sym != "pattern"]
    if not cand:
        return
    a = pick(rng, cand)
    kind, obj, f = norm_of(rng, a, ("ref", "affine", "indices", "vector"))
    nm = pick(rng, NAMES)
    a.norms = {nm: (lambda ax, full, obj=obj: copy.deepcopy(obj))}
    op = pick(rng, ["max", "min", "sum"])
    case.log(fld)
    others = [b.name for b in fld.axes if b is not a]
    D = case.lib(fld.build)
    ref = case.lib(fld.build)
    args1 = ["%s->%s=%s" % (a.name, nm, op)] + others
    args2 = ["%s=%s" % (a.name, op)] + others
    case.log(args1, args2)
    r1 = case.lib(D.get_along, *args1, is_squeeze=False)[fld.symbol]
    r2 = case.lib(ref.get_along, *args2, is_squeeze=False)[fld.symbol]
    case.eq(r1, r2, "operation along a normalized axis %s" % args1)
    case.sig(a.cls(), kind, op)


def field(case):
    """Normalization of the field itself"""
    rng = case.rng
    sp = chance(rng, 0.4)
    fld = fourier_field(rng) if sp else any_field(rng, syms="any", kind=pick(rng, ["f", "c"]))
    r, s, o, rr = rnd(rng, 0.5, 4), rnd(rng, 0.5, 4), rnd(rng, -3, 3), rnd(rng, 5, 9)
    plain = chance(rng, 0.5)
    fld.norms = {
        "ref": (lambda: r) if plain else (lambda: Norm_ref(ref=r)),
        "law": lambda: Norm_affine(slope=s, offset=o),
        "base": (lambda: rr) if plain else (lambda: Norm_ref(ref=rr, unit=fld.unit)),
        "fun": lambda: Norm_func(function=lambda x: x * 2 + x**2),
        "wrong": lambda: Norm_ref(ref=2.0, unit="K"),
    }
    laws = {
        "ref": lambda v: v / r,
        "law": lambda v: v * s + o,
        "base": lambda v: v / rr,
        "fun": lambda v: v * 2 + v**2,
    }
    D = case.lib(fld.build)
    case.log(fld)
    mag = chance(rng, 0.5)
    if sp:
        ft = [n for n in fld.names() if n in TR]
        v, lines = spectrum(fld, ft)
        args = [TR.get(n, n) for n in fld.names()]
    else:
        v = fld.full
        args = fld.names()
    if mag:
        v = np.abs(v)
    fn = D.get_magnitude_along if mag else D.get_along
    how = pick(rng, ["norm", "ref", "law", "base", "fun"])
    kw = dict(is_norm=True) if how == "norm" else dict(unit=how)
    if how == "norm" and chance(rng, 0.5):
        kw["unit"] = fld.unit
    law = laws["ref" if how == "norm" else how]
    case.log(args, kw)
    res = case.lib(fn, *shuffled(rng, args), is_squeeze=False, **kw)
    e = law(v)
    case.eq(res[fld.symbol], e, "normalized field %s" % kw, rtol=1e-8, atol=1e-10 * np.max(np.abs(e)))
    res = case.lib(fn, *shuffled(rng, args), is_squeeze=False)
    case.eq(res[fld.symbol], v, "field without normalization", rtol=1e-8, atol=1e-10 * np.max(np.abs(fld.values)))
    case.raises("normalization of another unit", fn, *args, unit="wrong")
    if chance(rng, 0.4):
        # phases
        v = spectrum(fld, ft)[0] if sp else fld.full
        res = case.lib(D.get_phase_along, *shuffled(rng, args), **kw)
        p = np.squeeze(np.angle(v))
        got = np.asarray(res[fld.symbol])
        case.true(got.shape == p.shape, "shape of the phases", got=got.shape, expected=p.shape)
        # phases of nothing and of negative numbers are decided by rounding
        ok = (np.squeeze(np.abs(v)) > 1e-6 * np.max(np.abs(fld.values))) & (np.abs(p) < np.pi - 1e-6)
        case.eq(got[ok], law(p)[ok], "normalized phase %s" % kw, rtol=1e-8, atol=1e-6)
        case.run.count("phase")
    case.sig(fld.cls(), how, mag, plain)


def errors(case):
    rng = case.rng
    fld = any_field(rng, syms="any", comp=0.0, kind="f")
    a = pick(rng, fld.axes)
    n = len(a.full)
    bad = np.arange(float(len(a.stored) + int(rng.integers(1, 4))))
    if a.sym == "pattern" and len(bad) in (len(a.full), len(a.stored)):
        bad = np.arange(float(n + 1))
    other_unit = pick(rng, [u for u in ["s", "rad", "m", "Hz", "K"] if u != a.unit])
    a.norms = {
        "good": lambda ax, full: Norm_ref(ref=2.0),
        "unit": lambda ax, full: pick(rng, [Norm_ref(ref=2.0, unit=other_unit), Norm_affine(slope=2.0, offset=0.0, unit=other_unit), Norm_indices(unit=other_unit)]),
        "size": lambda ax, full: Norm_vector(vector=bad.copy()) if chance(rng, 0.5) else bad.tolist(),
    }
    D = case.lib(fld.build)
    case.log(fld, "axis", a.name)
    rest = [b.name for b in fld.axes if b is not a]
    what = pick(rng, ["missing", "unit", "size", "field", "norm", "borrow"])
    forms = ["{0}->{1}", "{0}->{1}[0]", "{0}->{1}=[0.1,0.9]", "{0}->{1}[0:2]"]
    form = pick(rng, forms)
    nm = {"missing": "nothing_like_this", "unit": "unit", "size": "size"}.get(what)
    A = case.lib(a.build)
    case.log("expects an error", what, form)
    if nm:
        case.raises("normalization %s" % what, D.get_along, form.format(a.name, nm), *rest)
        case.raises("normalization %s" % what, D.get_magnitude_along, form.format(a.name, nm), *rest)
        case.raises("normalization %s" % what, A.get_values, unit=nm)
        case.raises("normalization %s" % what, A.get_values, normalization=nm)
        if a.sym and what == "missing":
            case.raises("normalization %s" % what, D.get_along, form.format(a.name, nm).split("=")[0].split("[")[0] + "[smallestperiod]", *rest)
        if what != "size" and a.name in TR and a.sym != "pattern" and a.uniform and a.stored[0] == 0:
            case.raises("normalization %s of lines" % what, D.get_along, form.format(TR[a.name], nm), *rest)
    elif what == "field":
        case.raises("missing normalization of the field", D.get_along, *fld.names(), unit="nothing_like_this")
        case.raises("missing normalization of the field", D.get_magnitude_along, *fld.names(), unit="nothing_like_this")
    elif what == "norm":
        case.raises("missing reference", D.get_along, *fld.names(), is_norm=True)
        case.raises("missing reference", D.get_magnitude_along, *fld.names(), is_norm=True)
    else:
        # defined on one axis only
        if rest:
            case.raises("normalization of another axis", D.get_along, a.name, *[rest[0] + "->good"] + rest[1:])
        case.raises("normalization of an axis asked on the field", D.get_along, *fld.names(), unit="good")
    # nothing is wrong with the data
    res = case.lib(D.get_along, a.name + "->good", *rest, is_squeeze=False)
    case.eq(res[a.name], a.full / 2.0, "normalized axis")
    case.eq(res[fld.symbol], fld.full, "field")
    case.sig(a.cls(), what, form)


def labels(case):
    """Positions of labels"""
    rng = case.rng
    c = comp_axis(rng)
    t = any_axis(rng, "time")
    c.norms = {"id": lambda ax, full: Norm_indices()}
    axs = [c, t] if chance(rng, 0.5) else [t, c]
    fld = Fld(axs, values_for(rng, axs, "f"))
    D = case.lib(fld.build)
    case.log(fld)
    res = case.lib(D.get_along, "time", c.name + "->id", is_squeeze=False)
    case.eq(res[c.name], np.arange(len(c.labels)), "positions of labels")
    case.eq(res[fld.symbol], fld.full, "field")
    case.sig(fld.cls())


SCENARIOS = [
    ("axes", axes, 2100, 30000),
    ("parts", parts, 1000, 14000),
    ("fourier", fourier, 1100, 16000),
    ("operations", operations, 700, 10000),
    ("field", field, 850, 12000),
    ("errors", errors, 1100, 16000),
    ("labels", labels, 84, 1200),
]
