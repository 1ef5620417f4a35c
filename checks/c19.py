"""C19: cartesian and cylindrical coordinates of vector fields"""
import numpy as np

from SciDataTool import VectorField
from SciDataTool.Functions import conversions
from checks.c03 import part_req
from checks.c05 import _All, ops_for, span
from checks.c07 import line_axis, one_turn
from checks.common import field_unit, shuffled
from mon.gen import AXUNITS, Ax, Fld, Norm_ref, any_axis, axis_1d, chance, pick, ratio, rnd, values_for
from mon.ref import TR, extract, make_req, reduce, spectrum

RULE = (
    "random vector field: any subset of cartesian or cylindrical components over angle and up to two other axes (time, z, "
    "freqs, any storage order, plain, periodic, antiperiodic, pattern; real or complex), asked in either coordinate system "
    "for slices, units, parts, reductions, spectra, magnitudes or largest harmonics, converted, converted back, or moved to "
    "frequencies; compared with the stored vectors projected sample by sample; distinct = axis classes x components x request"
)

SYS = {"cyl": ["radial", "tangential", "axial"], "cart": ["comp_x", "comp_y", "comp_z"]}
SYM = {"radial": "B_r", "tangential": "B_t", "axial": "B_z", "comp_x": "B_x", "comp_y": "B_y", "comp_z": "B_z"}


def make(rng, fourier=False, names=None, plain=False, even=False, kinds=("f", "f", "c")):
    """Axes, stored system and {component: Fld}"""
    names = shuffled(rng, names or ["angle"] + pick(rng, [[], ["time"], ["time"], ["time", "z"], ["z"], ["freqs"], ["load"]]))
    axes = []
    for nm in names:
        if nm == "freqs":
            axes.append(Ax("freqs", "Hz", np.cumsum(rng.integers(1, 5, int(rng.integers(1, 6)))) * 10.0))
            continue
        s = None if plain else "any" if nm in ("time", "angle", "z") else None
        a = any_axis(rng, nm, sym=s, uniform=True if fourier and nm in TR else None, start=0.0 if fourier and nm in TR else None, n=2 * int(rng.integers(2, 6)) if even and nm in TR else int(rng.integers(2, 9)) if fourier and nm in TR else None)
        if nm == "angle" and (fourier or chance(rng, 0.5)) and a.uniform:
            a = one_turn(rng, a)
        axes.append(a)
    kind = pick(rng, list(kinds)) if "freqs" not in names else "c"
    stored = pick(rng, ["cyl", "cart"])
    comps = SYS[stored]
    sub = pick(rng, [comps, comps, comps[:2], comps[:1], comps[1:2], comps[1:], comps[::2], comps[2:]])
    unit = pick(rng, ["T", "N", "m/s2"])
    norm = rnd(rng, 0.5, 5) if chance(rng, 0.3) else None
    flds = {}
    if chance(rng, 0.2):
        # the third component is the same in both systems and goes by either name
        sub = [{"axial": "comp_z", "comp_z": "axial"}.get(c, c) for c in sub]
    for c in shuffled(rng, sub):
        flds[c] = Fld(axes, values_for(rng, axes, kind), symbol=SYM[c], unit=unit, name={"radial": "Radial field", "tangential": "Tangential field"}.get(c, "Field"), is_real=kind != "c")
        if norm is not None:
            flds[c].norms = {"ref": lambda: Norm_ref(ref=norm)}
    return axes, stored, flds, norm


def build(flds):
    return VectorField(name="Field", symbol="B", components={c: f.build() for c, f in flds.items()})


def third(flds):
    return flds.get("axial") or flds.get("comp_z")


def packed(rng, args):
    """Requests are also accepted as one tuple"""
    return [tuple(args)] if chance(rng, 0.1) else args


def whole(a):
    """The angle as a plain axis"""
    b = Ax("angle", "rad", a.full.copy())
    b.lin = {"how": "whole"}
    return b


def project(axes, stored, flds, system, expand=True):
    """{component: Fld or None} in the coordinate system"""
    o3 = SYS[system][2]
    if system == stored:
        return {c: third(flds) if c == o3 else flds.get(c) for c in SYS[system]}
    n1, n2, n3 = SYS[stored]
    o1, o2, o3 = SYS[system]
    out = {o1: None, o2: None, o3: third(flds)}
    if n1 in flds or n2 in flds:
        i = [a.name for a in axes].index("angle")
        some = flds.get(n1) or flds.get(n2)
        a = axes[i]
        v1 = a.expand(flds[n1].values if n1 in flds else 0 * some.values, i)
        v2 = a.expand(flds[n2].values if n2 in flds else 0 * some.values, i)
        phi = a.full.reshape([-1 if j == i else 1 for j in range(len(axes))])
        if system == "cyl":
            w1, w2 = v1 * np.cos(phi) + v2 * np.sin(phi), -v1 * np.sin(phi) + v2 * np.cos(phi)
        else:
            w1, w2 = v1 * np.cos(phi) - v2 * np.sin(phi), v1 * np.sin(phi) + v2 * np.cos(phi)
        ax2 = [whole(b) if b.name == "angle" else b for b in axes]
        for o, w in ((o1, w1), (o2, w2)):
            out[o] = Fld(ax2, w, unit=some.unit, is_real=some.is_real)
            out[o].size = max(np.max(np.abs(v1)), np.max(np.abs(v2))) * (1 + np.max(np.abs(phi)))
    return out


def size(f):
    """Magnitude of the vectors a component comes from: rounding errors are relative to it"""
    return getattr(f, "size", None) or np.max(np.abs(f.values))


def view(axes):
    """Axes to write requests with: no bound exactly on a recomputed angle"""
    return [whole(a) if a.name == "angle" else a for a in axes]


def lin(axes):
    for a in axes:
        if a.labels is None and a.lin is None and a.uniform:
            a.lin = {"how": "extract"}


def call(V, system, what="along"):
    return getattr(V, {"along": "get_%s_along", "mag": "get_mag_%s_along", "harm": "get_harm_%s_along"}[what] % {"cyl": "rphiz", "cart": "xyz"}[system])


def compare(case, res, exp, fn, k, what, tol=1e-9):
    """Every component of an answer; fn gives the reference values of a component"""
    some = [f for f in exp.values() if f is not None][0]
    for c, f in exp.items():
        case.true(c in res, "component %s in the answer" % c, got=sorted(res))
        if f is None:
            zero = 1e-11 * abs(k) * np.max(np.abs(some.values))
            case.true(np.max(np.abs(res[c])) <= zero, "%s: missing component %s is zero" % (what, c), got=res[c])
        else:
            v = fn(f) * k
            case.eq(np.squeeze(res[c]), np.squeeze(v), "%s: %s" % (what, c), rtol=tol, atol=1e-11 * abs(k) * size(f))


def scale_of(rng, flds, norm):
    some = list(flds.values())[0]
    u, k = field_unit(rng, some) if some.unit in ("T", "N") else ("SI", 1.0)
    kw = {} if u == "SI" else {"unit": u}
    if norm is not None and chance(rng, 0.5):
        kw = {"is_norm": True}
        k = 1.0 / norm
    return kw, k


def slices(case):
    """Slices, parts and units"""
    rng = case.rng
    axes, stored, flds, norm = make(rng)
    V = case.lib(build, flds)
    lin(axes)
    case.log(stored, {c: f for c, f in flds.items()})
    for _ in range(3):
        system = pick(rng, ["cyl", "cart"])
        exp = project(axes, stored, flds, system)
        reqs = []
        part = chance(rng, 0.15)
        for a, b in zip(axes, view(axes)):
            if not chance(rng, 0.9):
                continue
            if part and a.name == "angle":
                reqs.append(make_req(rng, b, ["whole"], unit_p=0))
                reqs[-1].text = "angle[smallestperiod]"
                reqs[-1].idx = list(range(len(a.stored)))
                continue
            r = part_req(rng, a) if chance(rng, 0.15) and a.name != "angle" and a.name != "freqs" else None
            reqs.append(r or make_req(rng, b, ["whole", "all", "idx", "neg", "list", "range"] + ([] if a.is_step else ["interval"])))
        if not reqs:
            reqs.append(make_req(rng, view(axes)[0], ["whole"]))
        F = Fld(view(axes), None)
        args = shuffled(rng, [r.text for r in reqs])
        kw, k = scale_of(rng, flds, norm)
        mag = chance(rng, 0.3)
        case.log("magnitude" if mag else "values", system, args, kw)
        fn = (lambda f: np.abs(extract(F, reqs, values=f.full)[0])) if mag else (lambda f: extract(F, reqs, values=f.full)[0])
        sq = {} if mag else {"is_squeeze": chance(rng, 0.5)}
        res = case.lib(call(V, system, "mag" if mag else "along"), *packed(rng, args), **dict(kw, **sq))
        compare(case, res, exp, fn, k, "%s %s" % (system, args))
        f0 = [f for f in exp.values() if f is not None][0]
        if sq and not sq["is_squeeze"]:
            for c in exp:
                case.true(np.shape(res[c]) == np.shape(fn(f0)), "shape of %s" % c, got=np.shape(res[c]), expected=np.shape(fn(f0)))
        coords = extract(F, reqs, values=f0.full)[1]
        for r in reqs:
            case.eq(np.atleast_1d(res[r.name]), coords[r.name], "axis %s" % r.name, atol=1e-9)
        case.sig([a.cls() for a in axes], stored, system, tuple(sorted(flds)), mag, part)


def norm_kept(case):
    """Projection preserves the norm of the vectors"""
    rng = case.rng
    axes, stored, flds, norm = make(rng)
    V = case.lib(build, flds)
    args = shuffled(rng, [a.name for a in axes])
    case.log(stored, flds)
    case.log("norm in both systems", args)
    n2 = []
    for system in ("cyl", "cart"):
        res = case.lib(call(V, system), *args, is_squeeze=False)
        n2.append(sum(np.abs(res[c]) ** 2 for c in SYS[system]))
    case.eq(n2[0], n2[1], "norm of the vectors")
    case.sig([a.cls() for a in axes], stored, tuple(sorted(flds)))


def reductions(case):
    """Reductions act on the projected component"""
    rng = case.rng
    axes, stored, flds, norm = make(rng, kinds=("f",))
    if "freqs" in [a.name for a in axes]:
        return
    axes_ok = [a for a in axes if a.uniform or a.sym is None]
    if len(axes_ok) < len(axes):
        return
    V = case.lib(build, flds)
    system = pick(rng, ["cyl", "cart"])
    exp = project(axes, stored, flds, system)
    vax = view(axes)
    i = int(rng.integers(len(axes)))
    op = pick(rng, [o for o in ops_for(vax[i]) if o in ops_for(axes[i])])
    reqs = [make_req(rng, a, ["whole", "idx"]) for j, a in enumerate(vax) if j != i and chance(rng, 0.8)]
    args = shuffled(rng, [r.text for r in reqs] + ["%s=%s" % (vax[i].name, op)])
    F = Fld(vax, None)

    def fn(f):
        v = extract(F, reqs + [_All(vax[i])], values=f.full)[0]
        return reduce(v, vax[i].full, i, op, vax[i].is_phys, closing=axes[i].sym != "pattern")

    case.log(stored, flds)
    case.log(system, args)
    res = case.lib(call(V, system), *args)
    tol = np.max([np.max(np.abs(f.values)) for f in flds.values()]) * span(vax[i])
    for c, f in exp.items():
        if f is None:
            case.true(not np.any(np.asarray(res[c])), "missing component %s is zero" % c, got=res[c])
        else:
            case.eq(np.squeeze(res[c]), np.squeeze(fn(f)), "%s of %s" % (args, c), atol=1e-11 * tol * (1 + np.max(np.abs(axes[[a.name for a in axes].index("angle")].full))))
    case.sig([a.cls() for a in axes], stored, system, tuple(sorted(flds)), op)


def spectra(case):
    """Fourier components, magnitudes and largest harmonics of the projected components"""
    rng = case.rng
    axes, stored, flds, norm = make(rng, fourier=True, names=pick(rng, [["angle"], ["angle", "time"], ["angle", "time"], ["angle", "time", "z"]]))
    V = case.lib(build, flds)
    case.log(stored, flds)
    names = [a.name for a in axes]
    for _ in range(2):
        system = pick(rng, ["cyl", "cart"])
        exp = project(axes, stored, flds, system)
        ft = [n for n in names if n in TR and chance(rng, 0.8)] or ["angle"]
        seed = int(rng.integers(1 << 30))
        what = pick(rng, ["along", "along", "mag", "harm"])
        # the lines of projected and other components differ on symmetric angles
        sym = axes[names.index("angle")].sym is not None
        F = Fld(view(axes), None)
        others = [make_req(rng, a, ["whole", "idx"] if what != "harm" else ["idx"]) for a in F.axes if a.name not in ft and chance(rng, 0.8)]

        def fn(f):
            r2 = np.random.default_rng(seed)
            v, lines = spectrum(f, ft)
            ax = [line_axis(TR[a.name], lines[TR[a.name]]) if a.name in ft else a for a in f.axes]
            lr = [make_req(r2, a, ["whole"] if sym or what == "harm" else ["whole", "range"]) for a in ax if a.name in ("freqs", "wavenumber")]
            w, coords = extract(Fld(ax, v), lr + others, values=v)
            if f.is_real and "wavenumber" in lines and "freqs" not in lines:
                r = [r for r in lr if r.name == "wavenumber"][0]
                q = lines["wavenumber"][r.idx]
                if np.min(q) >= 0:
                    j = [a.name for a in ax].index("wavenumber")
                    w = w * np.where(q == 0, 1.0, 2.0).reshape([-1 if m == j else 1 for m in range(w.ndim)])
            fn.text = [r.text for r in lr]
            return w

        fn([f for f in exp.values() if f is not None][0])
        args = shuffled(rng, fn.text + [r.text for r in others])
        kw, k = scale_of(rng, flds, norm)
        case.log(what, system, args, kw)
        if what == "harm":
            N = int(rng.integers(1, 6))
            g = lambda f: np.sort(np.abs(fn(f)).ravel())[::-1][:N]
            res = case.lib(call(V, system, "harm"), N, *packed(rng, args), **kw)
            compare(case, res, exp, g, k, "%d largest %s" % (N, args))
        else:
            g = fn if what == "along" else (lambda f: np.abs(fn(f)))
            res = case.lib(call(V, system, what), *packed(rng, args), **kw)
            compare(case, res, exp, g, k, "%s %s" % (what, args))
        case.sig([a.cls() for a in axes], stored, system, tuple(sorted(flds)), what, tuple(ft))


def convert(case):
    """Conversion to the other coordinates, and back"""
    rng = case.rng
    axes, stored, flds, norm = make(rng)
    V = case.lib(build, flds)
    case.log(stored, flds)
    other = "cart" if stored == "cyl" else "cyl"
    to = {"cart": "to_xyz", "cyl": "to_rphiz"}
    case.log(to[other], to[stored])
    W = case.lib(getattr(V, to[other]))
    case.true((W.name, W.symbol, type(W).__name__) == ("Field", "B", "VectorField"), "name, symbol and type", got=(W.name, W.symbol))
    if any(c in flds for c in SYS[stored][:2]):
        case.true(all(c in SYS[other] for c in W.components), "components", got=list(W.components))
    names = [a.name for a in axes]

    def check(X, system, what):
        exp = project(axes, stored, flds, system)
        i = names.index("angle")
        ns = len(axes[i].stored)
        # converted components are only right on the stored part of a symmetric angle
        part = axes[i].sym is not None and system != stored
        cut = lambda v: np.take(v, range(ns), axis=i) if part else v
        args = shuffled(rng, ["angle[smallestperiod]" if n == "angle" and part else n for n in names])
        for s2 in ("cyl", "cart"):
            e2 = project(axes, stored, flds, s2)
            res = case.lib(call(X, s2), *args, is_squeeze=False)
            compare(case, res, e2, lambda f: cut(f.full), 1.0, "%s, %s" % (what, s2))
            for a in axes:
                if a.labels is None:
                    case.eq(np.atleast_1d(res[a.name]), a.full[:ns] if part and a.name == "angle" else a.full, "%s: axis %s" % (what, a.name), atol=1e-9)
        for c, f in exp.items():
            if f is not None:
                case.true(c in X.components or c in ("axial", "comp_z"), "%s: component %s" % (what, c), got=list(X.components))
                X_c = X.components[c] if c in X.components else case.lib(lambda: X.components[{"axial": "comp_z", "comp_z": "axial"}[c]])
                if c not in ("axial", "comp_z") or f is flds.get(c):
                    case.true(X_c.symbol == SYM[c], "%s: symbol of %s" % (what, c), got=X_c.symbol, expected=SYM[c])
                res = case.lib(X_c.get_along, *args, is_squeeze=False)
                case.eq(res[X_c.symbol], cut(f.full), "%s: component %s" % (what, c), atol=1e-11 * size(f))
                if part and not f is flds.get(c):
                    got = case.lib(X_c.get_along, *names, is_squeeze=False)[X_c.symbol]
                    if np.shape(got) != np.shape(f.full) or not np.allclose(got, f.full, rtol=1e-9, atol=1e-11 * size(f)):
                        case.known("converted-symmetry", "%s: component %s over the whole angle is wrong" % (what, c))
                case.true(X_c.unit == list(flds.values())[0].unit, "%s: unit of %s" % (what, c), got=X_c.unit)
                case.true([x.name for x in X_c.axes] == names, "%s: axes of %s" % (what, c), got=[x.name for x in X_c.axes])

    check(W, other, "converted")
    U = case.lib(getattr(W, to[stored]))
    check(U, stored, "converted back")
    S = case.lib(getattr(V, to[stored]))
    case.true(S == V and S is not V, "conversion to the stored coordinates is a copy")
    case.sig([a.cls() for a in axes], stored, tuple(sorted(flds)))


def domains(case):
    """Vector fields moved to frequencies and back"""
    rng = case.rng
    axes, stored, flds, norm = make(rng, fourier=True, names=pick(rng, [["angle", "time"], ["angle", "time", "z"]]), plain=True, even=True, kinds=("f",))
    V = case.lib(build, flds)
    case.log(stored, flds)
    case.log("time_to_freq, freq_to_time")
    W = case.lib(V.time_to_freq)
    names = [TR.get(a.name, a.name) for a in axes]
    for c, f in flds.items():
        v, lines = spectrum(f, ["time", "angle"])
        res = case.lib(W.components[c].get_along, *names, is_squeeze=False)
        case.eq(res[f.symbol], v, "spectrum of %s" % c, atol=1e-10 * np.max(np.abs(f.values)))
    system = pick(rng, ["cyl", "cart"])
    exp = project(axes, stored, flds, system)
    res = case.lib(call(W, system), *names, is_squeeze=False)
    for c, f in exp.items():
        if f is None:
            case.true(not np.any(np.asarray(res[c])), "missing component %s is zero" % c, got=res[c])
        else:
            v = spectrum(f, ["time", "angle"])[0]
            case.eq(res[c], v, "spectrum of the projected component %s" % c, atol=1e-9 * np.max(np.abs(f.values)))
    U = case.lib(W.freq_to_time)
    for c, f in flds.items():
        res = case.lib(U.components[c].get_along, *[a.name for a in axes], is_squeeze=False)
        case.eq(res[f.symbol], f.full, "%s back in time" % c, atol=1e-10 * np.max(np.abs(f.values)))
    case.true((W.name, W.symbol, U.name, U.symbol) == ("Field", "B") * 2, "names", got=(W.name, U.name))
    case.sig([a.cls() for a in axes], stored, tuple(sorted(flds)), system)


def points(case):
    """Coordinates of points and of vectors at points, and axes of a vector field"""
    rng = case.rng
    n = int(rng.integers(1, 12))
    xyz = np.round(rng.normal(0, 3, (n, 3)), 3) + 0.0004
    r, phi = np.hypot(xyz[:, 0], xyz[:, 1]), np.arctan2(xyz[:, 1], xyz[:, 0]) % (2 * np.pi)
    pol = np.column_stack((r, phi, xyz[:, 2]))
    case.log("points", xyz)
    got = case.lib(conversions.xyz_to_rphiz, xyz.copy())
    case.eq(got, pol, "cylindrical coordinates of points")
    turned = pol + np.column_stack((0 * r, 2 * np.pi * rng.integers(-2, 3, n), 0 * r))
    cols = pick(rng, [2, 3])
    case.eq(case.lib(conversions.rphiz_to_xyz, turned[:, :cols].copy()), xyz[:, :cols], "cartesian coordinates of points", atol=1e-10)
    v = np.round(rng.normal(0, 3, (n, 3)), 3)
    if chance(rng, 0.3):
        v = v + 1j * np.round(rng.normal(0, 3, (n, 3)), 3)
    c, s = np.cos(phi), np.sin(phi)
    w = np.column_stack((v[:, 0] * c + v[:, 1] * s, -v[:, 0] * s + v[:, 1] * c, v[:, 2]))
    case.eq(case.lib(conversions.xyz_to_rphiz_field, v.copy(), phi.copy()), w, "cylindrical components of vectors", atol=1e-10)
    case.eq(case.lib(conversions.rphiz_to_xyz_field, w.copy(), turned[:, 1].copy()), v, "cartesian components of vectors", atol=1e-10)
    axes, stored, flds, norm = make(rng)
    V = case.lib(build, flds)
    names = [a.name for a in axes]
    ask = shuffled(rng, names)[: int(rng.integers(0, len(names) + 1))]
    case.log("axes", names, ask)
    case.true([a.name for a in case.lib(V.get_axes, *ask)] == (ask or names), "axes of the vector field")
    case.sig(n > 1, cols, v.dtype.kind, len(names), len(ask))


SCENARIOS = [
    ("slices", slices, 1000, 12000),
    ("norm_kept", norm_kept, 400, 4000),
    ("reductions", reductions, 800, 10000),
    ("spectra", spectra, 600, 8000),
    ("convert", convert, 600, 8000),
    ("domains", domains, 300, 4000),
    ("points", points, 200, 4000),
]
