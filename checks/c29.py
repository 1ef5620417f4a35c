"""C29: figures of a request"""
import copy
import os

import numpy as np
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import PIL.Image
from matplotlib.backends.backend_agg import FigureCanvasAgg
from mpl_toolkits.mplot3d import art3d

from SciDataTool import VectorField
from checks.plots import answer, fld_unit, fourier_scene, numbers, ordered, own_ref, plain_scene
from mon.gen import Ax, Norm_indices, Norm_ref, chance, pick, values_for

RULE = (
    "random field of one to four axes with a request of one axis, or of one axis and overlaid samples of a second one, for "
    "one to three data objects sampled alike or not, in the stored domain or on Fourier lines, in any unit and in decibels, drawn as curve, bars or "
    "points; two-axis requests drawn as map, surface, points or stems; films along an axis; the artists of the figure are read back and compared "
    "with the answer of the same request on a fresh object; distinct = axis classes x request x kind of figure"
)


class Figure(object):
    def __init__(self, is_3d=False):
        self.is_3d = is_3d

    def __enter__(self):
        self.fig = plt.figure()
        self.ax = self.fig.add_subplot(projection="3d") if self.is_3d else self.fig.add_subplot()
        return self

    def __exit__(self, *exc):
        plt.close("all")


def unit_in(case, text, unit, what):
    if unit is None:
        return
    if unit == "":
        case.true("°" not in text and "[m" not in text and "[s]" not in text, "%s: no unit in %r" % (what, text))
    else:
        case.true("[%s]" % unit in text, "%s: unit %s in %r" % (what, unit, text))


def finite(v):
    return np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)


def series(case, f, kind, n):
    """Drawn curves, points or bars as (x, y, label)"""
    if kind in ("bargraph", "barchart"):
        out = []
        for c in f.ax.containers:
            out.append(([r.get_x() + r.get_width() / 2 for r in c], [r.get_height() for r in c], c.get_label(), [abs(r.get_width()) for r in c]))
        return out
    lines = [(finite(l.get_xdata()), finite(l.get_ydata()), l.get_label(), None) for l in f.ax.lines]
    if kind == "curve_point":
        case.true(len(lines) == 2 * n, "one curve and one set of points per slice", got=len(lines), expected=2 * n)
        for a, b in zip(lines[::2], lines[1::2]):
            case.eq(b[0], a[0], "points on the curve")
            case.eq(b[1], a[1], "points on the curve")
        lines = lines[::2]
    return lines


def two_d(case, fft, several=False):
    rng = case.rng
    fld, sc = fourier_scene(rng) if fft else plain_scene(rng)
    unit = fld_unit(rng, fld)
    if fft and chance(rng, 0.2):
        ref = pick(rng, [1.0, 2e-5, 1e-3])
        unit = "dB"
        fld.norms = {"ref": lambda: Norm_ref(ref=ref)}
    nref = own_ref(rng, fld, unit)
    kind = pick(rng, [None, None, "bargraph", "curve", "point", "curve_point", "barchart"])
    alike = several and chance(rng, 0.25)
    if alike:
        kind = pick(rng, ["barchart", "barchart", "bargraph"])
    if sc.axis_data is not None and kind == "barchart":
        kind = None
    args = ordered(rng, sc)
    if not sc.over and not several and chance(rng, 0.3):
        # slices written before the axis drawn
        args = args[1:] + args[:1]
    what = "figure of %s" % args
    case.log(fld, args, unit, kind, sc.axis_data)
    flds = [fld]
    if several:
        for k in range(int(rng.integers(1, 3))):
            axes, v = own_axes(rng, fld, sc) if chance(rng, 0.5) and not alike else (fld.axes, fld.values)
            flds.append(type(fld)(axes, v * (k + 2.5) + 0.1, symbol=pick(rng, [fld.symbol, "Q"]), unit=fld.unit, name="field %d" % k, norms=fld.norms))
    objs = [case.lib(g.build) for g in flds]
    ans = [answer(case, case.lib(g.build), g, sc, unit, positive=True, db=unit == "dB", ref=nref) for g in flds]
    coords, _, sliced = ans[0]
    x = coords[sc.main[0]]
    if len(x) < 2 or (sc.over and len(coords[sc.over]) < 2):
        return
    case.sig(fld.cls(), tuple(args), unit, kind, len(flds))
    ys, xall = [], []
    for c, v, _ in ans:
        xall += [c[sc.main[0]]] * (v.size // len(c[sc.main[0]]))
        v = v.reshape(len(c[sc.main[0]]), -1)
        if unit == "dB":
            v = np.where(v <= 0, np.nan, v)
        ys += [v[:, j] for j in range(v.shape[1])]
    labels = isinstance(x[0], str)
    if kind == "barchart" and (labels or any(y is not x and not np.array_equal(y, x) for y in xall)):
        kind = None
    xs = np.arange(len(x)) if labels else x
    opts = dict(unit=unit, axis_data=sc.axis_data, is_show_fig=False)
    if nref is not None:
        opts["is_norm"] = True
        case.run.count("normalized")
    if kind is not None:
        opts["type_plot"] = kind
    if several:
        opts["data_list"] = objs[1:]
    dress = dressing(rng, flds, xs, ys, fft) if chance(rng, 0.4) else {}
    if kind == "barchart":
        # bars stand at 0, 1, 2...
        dress.pop("is_logscale_x", None)
    names = dress.get("legend_list", [g.name for g in flds] if several else [""])
    case.log(dress)
    with Figure() as f:
        if chance(rng, 0.1):
            # figure made by the library
            plt.close("all")
            case.lib(objs[0].plot_2D_Data, *args, **opts, **dress)
            case.true(len(plt.get_fignums()) == 1 or "save_path" in dress, what + ": one figure", got=plt.get_fignums())
            if "save_path" in dress:
                case.true(plt.get_fignums() == [], what + ": figure closed after saving", got=plt.get_fignums())
                saved(case, dress, what)
                return
            f.fig = plt.gcf()
            f.ax = f.fig.axes[0]
        else:
            case.lib(objs[0].plot_2D_Data, *(args if chance(rng, 0.9) else [tuple(args)]), fig=f.fig, ax=f.ax, **opts, **dress)
        shown = kind or ("bargraph" if fft else "curve")
        if is_indexed(fld, sc):
            shown = "bargraph"
        drawn = series(case, f, shown, len(ys))
        case.true(len(drawn) == len(ys), "%s: one series per slice or object" % what, got=len(drawn), expected=len(ys))
        for k, (gx, gy, label, width) in enumerate(drawn):
            if not labels:
                xs = xall[k]
            if shown == "barchart":
                case.eq(gx, np.arange(len(x)), what + ": positions", atol=1e-9)
            elif shown == "bargraph":
                # bars of several series stand side by side
                case.true(len(gx) == len(xs), what + ": one bar per sample", got=len(gx), expected=len(xs))
                off = np.asarray(gx) - xs
                lim = 1e-9 * np.max(np.abs(xs))
                case.true(np.ptp(off) <= lim, what + ": bars at the coordinates", got=gx, expected=xs)
                case.true(np.max(np.abs(off)) <= (0.5 * width[0] if len(ys) > 1 else 0) + lim, what + ": bars at the coordinates", got=gx, expected=xs)
            else:
                case.eq(gx, np.asarray(xs, dtype=float), what + ": coordinates", rtol=1e-12)
            case.eq(gy, ys[k], what + ": values", rtol=1e-9, atol=1e-12 * np.nanmax(np.abs(np.nan_to_num(ys[k])) + 1e-300))
            # legend
            if sc.over:
                o = coords[sc.over][k % len(coords[sc.over])]
                if shown == "point":
                    pass
                elif isinstance(o, str):
                    case.true(o in label, what + ": label of the slice", got=label, expected=o)
                else:
                    n = numbers(label)
                    case.true(len(n) == 1 and abs(n[0] - o) <= 0.006 * abs(o), what + ": label of the slice", got=label, expected=o)
                    if sc.unit[sc.over]:
                        case.true(label.endswith(" " + sc.unit[sc.over]), what + ": unit of the slice", got=label, expected=sc.unit[sc.over])
            if shown != "point":
                g = names[k // (len(ys) // len(flds))]
                case.true(label.startswith(g), what + ": label of the object", got=label, expected=g)
        if labels:
            case.same([t.get_text() for t in f.ax.get_xticklabels()], [str(s) for s in x], what + ": tick labels")
        if shown == "barchart":
            got = [float(t.get_text().replace("−", "-")) for t in f.ax.get_xticklabels()]
            case.eq(got, x, what + ": tick labels", rtol=0, atol=0.00501)
        if "xlabel" in dress:
            case.same(f.ax.get_xlabel(), dress["xlabel"], what + ": axis label")
        else:
            unit_in(case, f.ax.get_xlabel(), sc.unit[sc.main[0]], what + ": axis label")
            name = sc.name[sc.main[0]]
            if sc.main[0] not in sc.norm:
                ok = {"freqs": "frequency", "z": "axial direction"}.get(name, name)
                case.true(f.ax.get_xlabel().lower().startswith(ok), what + ": axis label", got=f.ax.get_xlabel(), expected=ok)
        u = fld.unit if unit == "SI" else unit
        if "ylabel" in dress:
            case.same(f.ax.get_ylabel(), dress["ylabel"], what + ": label of the values")
        else:
            case.true("[" + u in f.ax.get_ylabel() and fld.symbol in f.ax.get_ylabel(), what + ": label of the values", got=f.ax.get_ylabel(), expected=u)
        if dress.get("is_disp_title") is False:
            case.same(f.ax.get_title(), "", what + ": hidden title")
        elif "title" in dress:
            case.same(f.ax.get_title(), dress["title"], what + ": title")
        else:
            case.true(fld.name in f.ax.get_title() or fld.name.lower() in f.ax.get_title(), what + ": title", got=f.ax.get_title())
        dressed(case, f, dress, drawn, shown, fft, what)
    case.run.count(shown)
    if sc.over:
        case.run.count("overlaid")


def own_axes(rng, fld, sc):
    """Other samples of the axis drawn"""
    a = fld.ax(sc.main[0])
    if a.labels is not None or a.sym == "pattern" or a.norms or len(a.stored) < 2 or sc.axis_data is not None or "[" in sc.parts[a.name] or "=" in sc.parts[a.name] or not a.uniform:
        return fld.axes, fld.values
    n = len(a.stored) + int(rng.integers(0, 3))
    x = a.stored[0] + pick(rng, [1.0, 1.5, 0.8]) * (a.stored[1] - a.stored[0]) * np.arange(n)
    b = Ax(a.name, a.unit, x, sym=a.sym, n=a.n)
    axes = [b if c is a else c for c in fld.axes]
    return axes, values_for(rng, axes, fld.values.dtype.kind)


def dressing(rng, flds, xs, ys, fft):
    """Options of presentation"""
    d = {}
    if chance(rng, 0.4):
        d["legend_list"] = ["case %d" % (7 * k + 1) for k in range(len(flds))]
    if chance(rng, 0.3):
        d["xlabel"] = "my abscissa [m]"
    if chance(rng, 0.3):
        d["ylabel"] = "my ordinate [N]"
    if chance(rng, 0.3):
        d["title"] = "my title"
    if chance(rng, 0.2):
        d["is_disp_title"] = False
    if chance(rng, 0.2):
        d["is_show_legend"] = False
    if chance(rng, 0.4):
        d["color_list"] = ["#%02x%02x%02x" % (20 + 7 * k, 17, 240 - 9 * k) for k in range(len(ys) + int(rng.integers(0, 2)))]
    x, y = np.asarray(xs, dtype=float), np.concatenate([np.ravel(v) for v in ys])
    y = y[np.isfinite(y)]
    if chance(rng, 0.4) and not fft:
        d["x_min"] = 0.0 if np.max(x) > 0 and chance(rng, 0.4) else float(np.min(x) - 0.25 * np.ptp(x))
    if chance(rng, 0.4) and not fft:
        d["x_max"] = float(np.max(x) + 0.35 * np.ptp(x))
    if len(y) and np.ptp(y) > 0:
        if chance(rng, 0.4):
            d["y_min"] = 0.0 if np.max(y) > 0 and chance(rng, 0.4) else float(np.min(y) - 0.25 * np.ptp(y))
        if chance(rng, 0.4):
            d["y_max"] = 0.0 if np.min(y) < 0 and d.get("y_min") != 0 and chance(rng, 0.3) else float(np.max(y) + 0.35 * np.ptp(y))
        if np.min(y) > 0 and chance(rng, 0.4):
            d["is_logscale_y"] = True
            d.pop("y_min", None)
    if np.min(x) > 0 and d.get("x_min", 1) > 0 and chance(rng, 0.3):
        d["is_logscale_x"] = True
    if chance(rng, 0.15):
        d["save_path"] = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "figure.png")
    return d


def saved(case, dress, what):
    p = dress["save_path"]
    case.true(os.path.isfile(p) and os.path.getsize(p) > 1000, what + ": saved figure")
    os.remove(p)
    case.run.count("saved")


def dressed(case, f, dress, drawn, shown, fft, what):
    if "save_path" in dress:
        saved(case, dress, what)
    if not fft:
        for k, g in (("x_min", f.ax.get_xlim()[0]), ("x_max", f.ax.get_xlim()[1])):
            if k in dress:
                case.eq(g, dress[k], "%s: limit %s" % (what, k), rtol=1e-12)
    for k, g in (("y_min", f.ax.get_ylim()[0]), ("y_max", f.ax.get_ylim()[1])):
        if k in dress:
            case.eq(g, dress[k], "%s: limit %s" % (what, k), rtol=1e-12)
    case.same(f.ax.get_xscale(), "log" if dress.get("is_logscale_x") else "linear", what + ": scale of the axis")
    case.same(f.ax.get_yscale(), "log" if dress.get("is_logscale_y") else "linear", what + ": scale of the values")
    leg = f.ax.get_legend()
    if dress.get("is_show_legend") is False:
        case.true(leg is None, what + ": hidden legend")
    elif shown != "point" and any(d[2] and not d[2].startswith("_") for d in drawn):
        case.true(leg is not None, what + ": legend shown")
        case.same([t.get_text() for t in leg.get_texts()], [d[2] for d in drawn if d[2] and not d[2].startswith("_")], what + ": legend")
    if "color_list" in dress and shown in ("curve", "bargraph"):
        arts = [l.get_color() for l in f.ax.lines] if shown == "curve" else [c.patches[0].get_facecolor() for c in f.ax.containers]
        case.same([matplotlib.colors.to_hex(c) for c in arts], dress["color_list"][: len(arts)], what + ": colours")


def is_indexed(fld, sc):
    """Axis drawn against indices: always bars"""
    return any(
        isinstance(obj, Norm_indices) and "->" + k in sc.parts.get(a.name, "")
        for a in fld.axes
        for k, obj in a._norms().items()
    )


def curve(case):
    two_d(case, False)


def fourier(case):
    two_d(case, True)


def several(case):
    two_d(case, chance(case.rng, 0.4), several=True)


def overall(case):
    """Overall curve over an axis drawn with the curves of its samples"""
    rng = case.rng
    while True:
        fft = chance(rng, 0.4)
        fld, sc = fourier_scene(rng, over=0.8) if fft else plain_scene(rng, over=0.8)
        free = [a.name for a in fld.axes if a.name not in sc.main and (a.name == sc.over or a.name not in sc.parts)]
        free = [n for n in free if sc.name[n] == n]
        if free and not is_indexed(fld, sc):
            break
    over = pick(rng, free)
    unit = fld_unit(rng, fld)
    args = ordered(rng, sc)
    what = "overall over %s of %s" % (over, args)
    case.log(fld, args, unit, over, sc.axis_data)
    coords, v, _ = answer(case, case.lib(fld.build), fld, sc, unit, positive=True)
    x = coords[sc.main[0]]
    if len(x) < 2:
        return
    case.sig(fld.cls(), tuple(args), unit, over)
    tot = copy.copy(sc)
    tot.parts = dict(sc.parts)
    tot.parts[over] = "%s=%s" % (over, "sum" if fld.unit == "W" else "rss")
    tot.over = sc.over if sc.over != over else None
    D = case.lib(fld.build)
    req = []
    for a in fld.axes:
        t = tot.parts.get(a.name)
        if t is not None:
            req.append("wavenumber>0" + t[10:] if t.split("{")[0] == "wavenumber" else t)
    kw = dict(unit=unit, axis_data=sc.axis_data)
    w = np.squeeze(case.lib(D.get_magnitude_along if fft else D.get_along, *req, **kw)[fld.symbol])
    if w.ndim != 1:
        # other axis overlaid: no single overall curve
        return
    ys = [w] + [c for c in v.reshape(len(x), -1).T]
    labels = isinstance(x[0], str)
    xs = np.arange(len(x)) if labels else x
    D = case.lib(fld.build)
    with Figure() as f:
        case.lib(D.plot_2D_Data, *args, fig=f.fig, ax=f.ax, is_show_fig=False, overall_axes=[over], type_plot="curve_point" if fft else "curve", **kw)
        drawn = series(case, f, "curve_point" if fft else "curve", len(ys))
        case.true(len(drawn) == len(ys), what + ": one curve per slice and the overall one", got=len(drawn), expected=len(ys))
        for (gx, gy, label, _), y in zip(drawn, ys):
            case.eq(gx, np.asarray(xs, dtype=float), what + ": coordinates", rtol=1e-12)
            case.eq(gy, y, what + ": values", rtol=1e-9, atol=1e-12 * np.max(np.abs(y) + 1e-300))
        case.same(drawn[0][2], "Overall", what + ": label of the overall curve")


def quiver(case):
    """Arrows of a vector field around the angle"""
    rng = case.rng
    while True:
        fld, sc = plain_scene(rng, 1, 0, ops=False)
        if sc.main == ["angle"] and "->" not in sc.parts["angle"] and fld.axes[fld.index("angle")].unit == "rad" and not sc.norm:
            break
    polar = chance(rng, 0.5)
    comps = ["radial", "tangential"] if polar else ["comp_x", "comp_y"]
    if chance(rng, 0.3):
        comps.append("axial" if polar else "comp_z")
    if chance(rng, 0.2):
        comps = comps[:1]
    flds = {}
    for k, c in enumerate(comps):
        flds[c] = type(fld)(fld.axes, fld.values * (0.5 + k) + 0.3 * k * np.max(np.abs(fld.values)), symbol="B_" + c[-1], unit=fld.unit, name="field " + c)
        for a in fld.axes:
            if a.sym == "antiperiod":
                a.sym = "period"
    sc.parts["angle"] = "angle" + ("{rad}" if chance(rng, 0.3) else "")
    sc.axis_data = None
    args = ordered(rng, sc)
    case.log(fld, args, comps)
    unit = fld_unit(rng, fld)
    V = case.lib(lambda: VectorField(name="field", symbol="B", components={k: g.build() for k, g in flds.items()}))
    ans = {c: answer(case, case.lib(g.build), g, sc, unit) for c, g in flds.items()}
    phi = ans[comps[0]][0]["angle"]
    if len(phi) < 2:
        return
    val = {c: a[1].reshape(-1) for c, a in ans.items()}
    p, q = [val.get(c, np.zeros(len(phi))) for c in (["radial", "tangential"] if polar else ["comp_x", "comp_y"])]
    if polar:
        xy = np.stack([p * np.cos(phi) - q * np.sin(phi), p * np.sin(phi) + q * np.cos(phi)], axis=1)
    else:
        xy = np.stack([p, q], axis=1)
    opts = {}
    if chance(rng, 0.4):
        c = pick(rng, ["radial", "tangential"])
        d = np.stack([np.cos(phi), np.sin(phi)] if c == "radial" else [-np.sin(phi), np.cos(phi)], axis=1)
        scal = np.sum(xy * d, axis=1)
        # cartesian components keep the angular symmetry when converted (see C19)
        if c in val or (len(comps) > 1 and fld.axes[fld.index("angle")].sym is None):
            opts["component_list"] = [c]
            xy = scal[:, None] * d
    radius = 1.0
    if chance(rng, 0.6):
        radius = opts["radius"] = pick(rng, [0.05, 2.5])
    if chance(rng, 0.2):
        opts["phase"] = ph = pick(rng, [0.7, np.pi])
        xy = xy * np.cos(ph)
    what = "arrows of %s %s" % (args, opts)
    case.sig(fld.cls(), tuple(args), len(comps), tuple(sorted(opts)))
    with Figure() as f:
        case.lib(V.plot_2D_Data, *args, fig=f.fig, ax=f.ax, type_plot="quiver", is_show_fig=False, unit=unit, **opts)
        qs = f.ax.collections
        case.true(len(qs) == 1, what + ": one set of arrows", got=len(qs))
        o = finite(qs[0].get_offsets())
        case.eq(o, radius * np.stack([np.cos(phi), np.sin(phi)], axis=1), what + ": positions", atol=1e-9 * radius)
        s = np.max(np.abs(xy)) + 1e-300
        case.eq(np.stack([qs[0].U, qs[0].V], axis=1), xy, what + ": arrows", rtol=1e-9, atol=1e-9 * s)


def points(X, Y, Z):
    p = np.stack([np.ravel(X), np.ravel(Y), np.ravel(Z)], axis=1)
    return p[np.lexsort(p.T[::-1])]


def cloud(case, got, exp, what):
    """Same set of points"""
    s = np.nanmax(np.abs(exp), axis=0) + 1e-300
    got = np.unique(np.round(np.asarray(got, dtype=float) / s, 7) + 0.0, axis=0)
    exp = np.unique(np.round(exp / s, 7) + 0.0, axis=0)
    case.true(got.shape == exp.shape and np.max(np.abs(got - exp)) < 3e-7, what, got=got[:6] * s, expected=exp[:6] * s, n=(len(got), len(exp)))


def cells(case, c, z, x, y, v, what):
    """Mesh of cells around the samples"""
    case.run.count("cells")
    case.true(c.shape[:2] == (len(y) + 1, len(x) + 1), what + ": one cell per sample", got=c.shape, expected=(len(y), len(x)))
    case.eq(z.reshape(len(y), len(x)), v, what + ": heights of the cells")
    for k, (p, e) in enumerate(((x, c[0, :, 0]), (y, c[:, 0, 1]))):
        lo, hi = np.minimum(e[1:], e[:-1]), np.maximum(e[1:], e[:-1])
        case.true(np.all((lo <= p) & (p <= hi)), what + ": cells around the coordinates", got=e, expected=p)


def limits(case, f, dress, switch, what):
    """Limits, title and file of a figure of two axes"""
    for n, own in (("x", f.ax.get_xlim()), ("y", f.ax.get_ylim())) if not switch else (("y", f.ax.get_xlim()), ("x", f.ax.get_ylim())):
        # the first axis can be drawn backwards
        for k, v in ((n + "_min", min(own)), (n + "_max", max(own))):
            if k in dress:
                case.eq(v, dress[k], "%s: limit %s" % (what, k), rtol=1e-9, atol=1e-12)
    for n, own in (("x", f.ax.get_xscale()), ("y", f.ax.get_yscale())) if not switch else (("y", f.ax.get_xscale()), ("x", f.ax.get_yscale())):
        case.same(own, "log" if dress.get("is_logscale_" + n) else "linear", what + ": scale of axis " + n)
    if dress.get("is_disp_title") is False:
        case.same(f.ax.get_title(), "", what + ": hidden title")
    elif "title" in dress:
        case.same(f.ax.get_title(), dress["title"], what + ": title")
    if "save_path" in dress:
        saved(case, dress, what)


def heights(case, f, dress, kind, fld, unit, what):
    """Label and limits of the heights, scales of the axes"""
    if kind in ("surf", "stem"):
        lab, lim = f.ax.get_zlabel(), f.ax.get_zlim()
    else:
        case.true(len(f.fig.axes) == 2, what + ": one scale of colours", got=len(f.fig.axes))
        art = f.ax.images[0] if kind == "pcolor" else f.ax.collections[0]
        lab, lim = f.fig.axes[1].get_title(), art.get_clim()
    if "zlabel" in dress:
        case.same(lab, dress["zlabel"], what + ": label of the heights")
    else:
        case.true("[" + unit in lab and fld.symbol in lab, what + ": label of the heights", got=lab, expected=unit)
    for k, v in (("z_min", lim[0]), ("z_max", lim[1])):
        if k in dress:
            case.eq(v, dress[k], "%s: limit %s" % (what, k), rtol=1e-9, atol=1e-12)


def ticks(case, f, coords, some, what):
    """Labels of component axes stand at their positions"""
    for c, ax in zip(coords, (f.ax.xaxis, f.ax.yaxis)):
        if not isinstance(c[0], str):
            continue
        case.run.count("label ticks")
        pos, lab = ax.get_ticklocs(), [t.get_text() for t in ax.get_ticklabels()]
        if some and not any(lab):
            continue
        case.true(all(p == round(p) and 0 <= p < len(c) for p in pos), what + ": positions of the labels", got=pos)
        case.same(lab, [str(c[int(p)]) for p in pos], what + ": labels")
        case.true(some or len(pos) == len(c), what + ": one label per position", got=lab, expected=list(c))


def three_d(case, fft):
    rng = case.rng
    while True:
        fld, sc = fourier_scene(rng, 2, 0) if fft else plain_scene(rng, 2, 0, ops=False)
        if len(sc.main) == 2:
            break
    unit = fld_unit(rng, fld)
    if fft and chance(rng, 0.2):
        ref = pick(rng, [1.0, 2e-5, 1e-3])
        unit = "dB"
        fld.norms = {"ref": lambda: Norm_ref(ref=ref)}
    nref = own_ref(rng, fld, unit)
    kind = pick(rng, ["scatter", "stem"]) if fft else pick(rng, ["pcolor", "pcolormesh", "surf", "scatter"])
    if kind == "scatter" and not fft:
        # sizes and colours of points start at zero
        fld.values = np.abs(fld.values)
        for a in fld.axes:
            if a.sym == "antiperiod":
                a.sym = "period"
                if a.name in sc.parts:
                    sc.parts[a.name] = sc.parts[a.name].replace("[antiperiod]", "[smallestperiod]")
    if chance(rng, 0.4):
        sc.main = sc.main[::-1]
    args = ordered(rng, sc)
    what = "%s of %s" % (kind, args)
    case.log(fld, args, unit, kind, sc.axis_data)
    coords, v, _ = answer(case, case.lib(fld.build), fld, sc, unit, db=unit == "dB", ref=nref)
    a, b = [coords[n] for n in sc.main]
    if min(v.shape) < 2 or np.max(v) <= 0 and unit == "dB":
        return
    case.sig(fld.cls(), tuple(args), unit, kind)
    x = np.arange(len(a)) if isinstance(a[0], str) else a
    y = np.arange(len(b)) if isinstance(b[0], str) else b
    Y, X = np.meshgrid(y, x)
    D = case.lib(fld.build)
    opts = dict(unit=unit, axis_data=sc.axis_data, is_show_fig=False)
    if nref is not None:
        opts["is_norm"] = True
    if kind in ("surf", "stem"):
        opts["is_2D_view"] = False
    elif chance(rng, 0.5) or kind != ("scatter" if fft else "pcolor"):
        opts["type_plot"] = kind
    switch = kind not in ("stem",) and chance(rng, 0.2)
    if switch:
        opts["is_switch_axes"] = True
    top = None
    if kind == "stem":
        opts["N_stem"] = 10000
        h = np.sort(v, axis=None)[::-1]
        n = int(rng.integers(1, v.size + 1))
        if set(sc.name[m] for m in sc.main) == {"freqs", "wavenumber"} and chance(rng, 0.5) and n < v.size and h[n] < h[n - 1] - 1e-6 * np.max(np.abs(h)):
            # largest components only
            top = opts["N_stem"] = n
    dress = {}
    if kind not in ("scatter", "stem") and not is_indexed(fld, sc):
        for n, p in (("x", x), ("y", y)):
            if chance(rng, 0.4):
                dress[n + "_min"] = 0.0 if np.max(p) > 0 and chance(rng, 0.4) else float(np.min(p) - 0.25 * np.ptp(p))
            if chance(rng, 0.4):
                dress[n + "_max"] = 0.0 if np.min(p) < 0 and dress.get(n + "_min") != 0 and chance(rng, 0.3) else float(np.max(p) + 0.35 * np.ptp(p))
        for n, p in (("x", x), ("y", y)):
            if chance(rng, 0.25) and np.min(p) > 0 and dress.get(n + "_min", 1) > 0:
                dress["is_logscale_" + n] = True
    if kind not in ("scatter", "stem") and np.ptp(v) > 0:
        if chance(rng, 0.25):
            dress["z_min"] = float(np.min(v) - 0.25 * np.ptp(v))
        if chance(rng, 0.25):
            dress["z_max"] = float(np.max(v) + 0.35 * np.ptp(v))
    for n in "xyz":
        if chance(rng, 0.15):
            dress[n + "label"] = "my %s [N]" % n
    if chance(rng, 0.2):
        dress["title"] = "my title"
    elif chance(rng, 0.2):
        dress["is_disp_title"] = False
    if chance(rng, 0.1):
        dress["save_path"] = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "figure.png")
    case.log(dress)
    opts.update(dress)
    with Figure(kind in ("surf", "stem")) as f:
        case.lib(D.plot_3D_Data, *args, fig=f.fig, ax=f.ax, **opts)
        limits(case, f, dress, switch, what)
        heights(case, f, dress, kind, fld, fld.unit if unit == "SI" else unit, what)
        ticks(case, f, (b, a) if switch else (a, b), fft or kind == "scatter", what)
        if kind == "pcolor":
            case.true(len(f.ax.images) == 1, what + ": one image", got=len(f.ax.images))
            im = f.ax.images[0]
            gx, gy = finite(im._Ax), finite(im._Ay)
            Gx, Gy = np.meshgrid(gx, gy)
            got = points(Gx, Gy, finite(im._A))
        elif kind == "pcolormesh":
            case.true(len(f.ax.collections) == 1, what + ": one mesh", got=len(f.ax.collections))
            m = f.ax.collections[0]
            c = m.get_coordinates()
            z = finite(m.get_array())
            if c.shape[0] * c.shape[1] != z.size:
                cells(case, c, z, y if switch else x, x if switch else y, v if switch else v.T, what)
                return
            got = points(c[..., 0], c[..., 1], z)
        elif kind == "scatter":
            case.true(len(f.ax.collections) == 1, what + ": one set of points", got=len(f.ax.collections))
            s = f.ax.collections[0]
            o = finite(s.get_offsets())
            got = points(o[:, 0], o[:, 1], finite(s.get_array()))
        elif kind == "surf":
            case.true(len(f.ax.collections) == 1, what + ": one surface", got=len(f.ax.collections))
            p = f.ax.collections[0]._vec
            got = points(p[0], p[1], p[2])
        else:
            lines = [l for l in f.ax.lines if isinstance(l, art3d.Line3D)]
            d = [l.get_data_3d() for l in lines]
            case.true(all(q[2][0] == 0 for q in d), what + ": stems start at zero")
            got = np.array([[q[0][1], q[1][1], q[2][1]] for q in d])
        exp = points(Y, X, v) if switch else points(X, Y, v)
        if kind == "stem":
            got = points(*got.T)
            if top is not None:
                exp = exp[exp[:, 2] >= h[top - 1]]
        if kind == "scatter":
            # heights under the lower limit are left blank
            blank = np.isnan(got[:, 2])
            case.true(np.sum(blank) == np.sum(exp[:, 2] < 0), what + ": blank heights", got=got, expected=exp)
            got, exp = got[~blank], exp[exp[:, 2] >= 0]
        cloud(case, got, exp, what + ": grid and heights")
        lab = [f.ax.get_xlabel(), f.ax.get_ylabel()]
        if switch:
            lab = lab[::-1]
        for n, t, own in zip(sc.main, lab, "xy"):
            if own + "label" in dress:
                case.same(t, dress[own + "label"], what + ": axis label")
                continue
            unit_in(case, t, sc.unit[n], what + ": axis label")
            if n not in sc.norm:
                ok = {"freqs": "frequency", "z": "axial direction"}.get(sc.name[n], sc.name[n])
                case.true(t.lower().startswith(ok), what + ": axis label", got=t, expected=ok)
    case.run.count(kind)


def grid(case):
    three_d(case, False)


def lines(case):
    three_d(case, True)


def vector3(case):
    """Components of a vector field drawn as maps"""
    rng = case.rng
    fld, sc = plain_scene(rng, 2, 0, ops=False)
    sc.main.sort(key=fld.index)
    args = ordered(rng, sc)
    comps = ["radial", "tangential", "axial"][: int(rng.integers(1, 4))]
    flds = {c: type(fld)(fld.axes, fld.values * (k + 1.5), symbol="B_" + c[0], unit=fld.unit, name="field " + c) for k, c in enumerate(comps)}
    c = pick(rng, comps)
    coords, v, _ = answer(case, case.lib(flds[c].build), flds[c], sc)
    a, b = [coords[n] for n in sc.main]
    if min(v.shape) < 2:
        return
    V = case.lib(lambda: VectorField(name="field", symbol="B", components={k: g.build() for k, g in flds.items()}))
    case.log(fld, args, c)
    case.sig(fld.cls(), tuple(args), c)
    x = np.arange(len(a)) if isinstance(a[0], str) else a
    y = np.arange(len(b)) if isinstance(b[0], str) else b
    Y, X = np.meshgrid(y, x)
    with Figure(True) as f:
        case.lib(V.plot_3D_Data, *args, fig=f.fig, ax=f.ax, component_list=[c], is_2D_view=False, is_show_fig=False, axis_data=sc.axis_data)
        p = f.ax.collections[0]._vec
        cloud(case, points(p[0], p[1], p[2]), points(X, Y, v), "surface of %s of %s" % (c, args))


def vector(case):
    """Components of a vector field drawn one after the other"""
    rng = case.rng
    fld, sc = plain_scene(rng, over=0.2)
    sc.norm = set()
    args = ordered(rng, sc)
    comps = ["radial", "tangential", "axial"][: int(rng.integers(1, 4))]
    flds = {}
    for k, c in enumerate(comps):
        flds[c] = type(fld)(fld.axes, fld.values * (k + 1.5), symbol="B_" + c[0], unit=fld.unit, name="field " + c)
    ans = {c: answer(case, case.lib(g.build), g, sc) for c, g in flds.items()}
    x = ans[comps[0]][0][sc.main[0]]
    if len(x) < 2:
        return
    V = case.lib(lambda: VectorField(name="field", symbol="B", components={c: g.build() for c, g in flds.items()}))
    want = comps if chance(rng, 0.5) else [pick(rng, comps)]
    case.log(fld, args, want)
    case.sig(fld.cls(), tuple(args), len(want))
    with Figure() as f:
        opts = {} if want == comps and chance(rng, 0.5) else {"component_list": want}
        case.lib(V.plot_2D_Data, *args, fig=f.fig, ax=f.ax, type_plot="curve", is_show_fig=False, axis_data=sc.axis_data, **opts)
        got = list(f.ax.lines)
        exp = [v for c in want for v in ans[c][1].reshape(len(x), -1).T]
        if is_indexed(fld, sc):
            return
        case.true(len(got) == len(exp), "one curve per component and slice", got=len(got), expected=len(exp))
        xs = np.arange(len(x)) if isinstance(x[0], str) else x
        for l, v in zip(got, exp):
            case.eq(finite(l.get_xdata()), np.asarray(xs, dtype=float), "coordinates of %s" % args)
            case.eq(finite(l.get_ydata()), v, "values of %s" % args)


class Frames(object):
    """Figures drawn while an animation is built"""

    def __enter__(self):
        self.old = draw = FigureCanvasAgg.draw
        self.seen = seen = []

        def record(canvas, *args, **kwargs):
            out = draw(canvas, *args, **kwargs)
            ax = canvas.figure.axes[0]
            pic = {"lines": [(finite(l.get_xdata()), finite(l.get_ydata())) for l in ax.lines], "ylim": ax.get_ylim(), "title": canvas.figure._suptitle}
            if ax.images:
                im = ax.images[0]
                pic["map"] = finite(im._Ax), finite(im._Ay), finite(im._A)
            if not seen or seen[-1][0] is not canvas.figure:
                seen.append((canvas.figure, pic))
            else:
                seen[-1] = (canvas.figure, pic)
            return out

        FigureCanvasAgg.draw = record
        return self

    def __exit__(self, *exc):
        FigureCanvasAgg.draw = self.old
        plt.close("all")


def animated(case):
    """One figure per position of an axis"""
    rng = case.rng
    n = pick(rng, [1, 1, 2, 2])
    pat = chance(rng, 0.4)
    while True:
        fld, sc = plain_scene(rng, n, 0, ops=False)
        free = [a for a in fld.axes if a.name not in sc.main and a.labels is None and (a.sym == "pattern" if pat else len(a.stored) > 1)]
        if free and not is_indexed(fld, sc) and sc.axis_data is None:
            break
    a = pick(rng, free)
    sc.parts.pop(a.name, None)
    sc.main.sort(key=fld.index)
    args = ordered(rng, sc)
    unit = fld_unit(rng, fld)
    count = pick(rng, [2, 3, 5])
    first = a.name + "[oneperiod]"
    if a.sym == "pattern":
        slots = ["%s[%d]" % (a.name, k) for k in range(len(a.full))]
    else:
        x = a.oneperiod if a.sym is not None else a.stored
        lo, hi = np.min(x), np.max(x)
        slots = [lo + (hi - lo) * k / count for k in range(count)]
        gaps = [np.sort(np.abs(x - s))[:2] for s in slots]
        if any(g[1] - g[0] < 1e-9 * (hi - lo) for g in gaps):
            # position halfway between two samples: either is right
            return
        slots = ["%s=%s" % (a.name, s) for s in slots]
    tag = "{%s}" % a.unit
    what = "animation of %s along %s" % (args, first)
    case.log(fld, args, first, unit, count)
    case.sig(fld.cls(), tuple(args), first, count)
    exp = []
    for s in slots:
        r = case.lib(case.lib(fld.build).get_along, *args, s + tag, unit=unit, is_squeeze=False)
        v = np.moveaxis(r[fld.symbol], [fld.index(m) for m in sc.main], range(n))
        exp.append(v.reshape(v.shape[:n]))
        coords = [r[m] for m in sc.main]
    if min(len(c) for c in coords) < 2 or not all(np.all(np.isfinite(v)) for v in exp):
        return
    coords = [np.arange(len(c)) if isinstance(c[0], str) else np.asarray(c, dtype=float) for c in coords]
    path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "film.gif")
    opts = dict(unit=unit, save_path=pick(rng, [path, path[:-4] + ".png"]), nb_frames=count, fps=2)
    lim = (None, None)
    if n == 1:
        if chance(rng, 0.3):
            lim = (float(np.min(exp)) - 1.0, float(np.max(exp)) + 2.0)
        opts.update(y_min=lim[0], y_max=lim[1])
    head = pick(rng, ["", "my film"])
    D = case.lib(fld.build)
    with Frames() as f:
        case.lib(D.plot_2D_Data_Animated if n == 1 else D.plot_3D_Data_Animated, first + tag, head, *args, **opts)
        got = [p for _, p in f.seen]
        case.true(plt.get_fignums() == [], what + ": figures closed", got=plt.get_fignums())
    # rounding of the last position
    case.true(len(got) in (len(exp), len(exp) + (a.sym != "pattern")), what + ": one figure per position", got=len(got), expected=len(exp))
    case.true(os.path.isfile(path), what + ": film written")
    pages = PIL.Image.open(path).n_frames
    os.remove(path)
    # equal figures share a page
    case.true(1 <= pages <= len(got), what + ": pages of the film", got=pages, expected=len(got))
    case.run.count("pages", pages)
    for p, v in zip(got, exp):
        if n == 1:
            case.true(len(p["lines"]) == 1, what + ": one curve", got=len(p["lines"]))
            case.eq(p["lines"][0][0], coords[0], what + ": coordinates", rtol=1e-12)
            case.eq(p["lines"][0][1], v, what + ": values", rtol=1e-9, atol=1e-12 * np.max(np.abs(v) + 1e-300))
            case.same(p["ylim"], got[0]["ylim"], what + ": limits of all figures")
            case.true(p["ylim"][0] <= np.min(v) and np.max(v) <= p["ylim"][1], what + ": values within the limits", got=p["ylim"], expected=v)
            if lim[0] is not None:
                case.eq(p["ylim"], lim, what + ": limits", rtol=1e-12)
        else:
            case.true("map" in p, what + ": one map")
            gx, gy, z = p["map"]
            Gx, Gy = np.meshgrid(gx, gy)
            Y, X = np.meshgrid(coords[1], coords[0])
            cloud(case, points(Gx, Gy, z), points(X, Y, v), what + ": grid and heights")
        if head:
            case.true(p["title"] is not None and p["title"].get_text() == head, what + ": title")
    case.run.count("films")


SCENARIOS = [
    ("curve", curve, 84, 900),
    ("fourier", fourier, 84, 900),
    ("several", several, 70, 800),
    ("grid", grid, 98, 1150),
    ("lines", lines, 70, 800),
    ("vector", vector, 42, 400),
    ("vector3", vector3, 28, 250),
    ("overall", overall, 42, 500),
    ("quiver", quiver, 42, 500),
    ("animated", animated, 24, 200),
]
