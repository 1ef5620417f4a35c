"""Requests of one, two or three axes to draw or to write, with the samples they designate"""
import copy
import re

import numpy as np

from checks.c07 import fourier_field
from checks.c12 import NAMES, norm_of
from checks.common import shuffled
from mon.gen import AXUNITS, FUNITS, Norm_ref, any_field, chance, pick
from mon.ref import make_req, user_points

OPS = ["max", "min", "mean", "sum", "rms", "rss"]
FFT = ("freqs", "wavenumber")


class Scene(object):
    """A request: whole axes, overlaid axis, slices, and the texts to pass"""

    def __init__(self):
        self.parts = {}  # storage name -> text
        self.name = {}  # storage name -> requested name
        self.unit = {}  # storage name -> unit of the coordinates (None: not checked)
        self.norm = set()
        self.main = []  # storage names of the axes drawn
        self.over = None
        self.red = []
        self.axis_data = None
        self.fft = False


def own_unit(a):
    return "" if a.unit in ("dimless", "SI") else a.unit


def whole_part(rng, sc, a, norms=True, kinds=None):
    """Part keeping several samples of an axis"""
    kind = pick(rng, kinds or ["whole", "whole", "range", "interval", "above", "below", "unit", "norm", "per", "data"])
    t, u = a.name, own_unit(a)
    if a.labels is not None:
        kind = pick(rng, ["whole", "all", "range"])
        t = {"whole": a.name, "all": a.name + "[]"}.get(kind)
        if kind == "range":
            t = "%s[0:%d]" % (a.name, max(2, len(a.labels) - 1))
        return t, ""
    if kind in ("range", "interval", "above", "below"):
        r = make_req(rng, a, [kind])
        for _ in range(10):
            if len(r.idx) > 1:
                break
            r = make_req(rng, a, [kind])
        if len(r.idx) > 1:
            t = r.text
            u = r.unit if r.unit is not None else u
    elif kind == "unit":
        u = pick(rng, AXUNITS[a.unit])
        t = "%s{%s}" % (a.name, u)
    elif kind == "norm" and a.norms and norms:
        nm = pick(rng, sorted(a.norms))
        t, u = "%s->%s" % (a.name, nm), None
        sc.norm.add(a.name)
    elif kind == "per":
        if a.sym == "pattern":
            t = a.name + "[pattern]"
        elif a.sym == "antiperiod":
            t = a.name + pick(rng, ["[oneperiod]", "[antiperiod]", "[smallestperiod]"])
        elif a.sym == "period":
            t = a.name + pick(rng, ["[oneperiod]", "[smallestperiod]"])
        else:
            t = a.name + "[oneperiod]"
        if len(a.stored) < 2:
            t = a.name
    elif kind == "data" and sc.axis_data is None and not a.is_step and len(np.unique(a.full)) > 1:
        pts = np.unique(user_points(rng, a, outside=False, m=int(rng.integers(3, 8))))
        if len(pts) > 1:
            sc.axis_data = {a.name: pts}
            t = a.name + "=axis_data"
    return t, (u if u != "dimless" else "")


def slice_part(rng, sc, a, ops=True):
    """Part reducing an axis to one sample, or None to leave it out"""
    kind = pick(rng, ["idx", "idx", "val", "out", "op" if ops else "idx"])
    if kind == "out":
        return None
    if kind == "op" and a.labels is None:
        sc.red.append(a.name)
        return a.name + "=" + pick(rng, OPS)
    if a.labels is not None:
        kind = "idx"
    r = make_req(rng, a, ["idx" if kind == "op" else kind], unit_p=0.2)
    return r.text


def over_part(rng, a):
    n = len(a.full)
    m = int(rng.integers(2, min(n, 5) + 1))
    idx = [int(i) for i in rng.permutation(n)[:m]]
    if chance(rng, 0.6):
        idx.sort()
    u = None
    if a.labels is None and chance(rng, 0.25):
        u = pick(rng, AXUNITS[a.unit])
    t = "%s[%s]%s" % (a.name, ",".join(map(str, idx)), "" if u is None else "{%s}" % u)
    return t, ("" if u == "dimless" else u or own_unit(a))


def sizes(fld):
    return [a for a in fld.axes if len(a.full) > 1]


def plain_scene(rng, nmain=1, over=0.35, ops=True, kind="f", **kw):
    """Request in the stored domain"""
    while True:
        fld = any_field(rng, syms=pick(rng, [None, "any"]), kind=kind, naxes=int(rng.integers(max(nmain, 1), 5)), maxn=6, **kw)
        wide = sizes(fld)
        if len(wide) >= nmain and fld.full.size < 4000:
            break
    for a in fld.axes:
        if a.labels is None and chance(rng, 0.3):
            kind, obj, _ = norm_of(rng, a, kinds=("ref", "affine", "indices"))
            a.norms = {pick(rng, NAMES): (lambda ax, full, obj=obj: copy.deepcopy(obj))}
    sc = Scene()
    wide = shuffled(rng, wide)
    sc.main = [a.name for a in wide[:nmain]]
    rest = [a for a in fld.axes if a.name not in sc.main]
    if wide[nmain:] and chance(rng, over):
        sc.over = wide[nmain].name
    for a in fld.axes:
        sc.name[a.name] = a.name
        if a.name in sc.main:
            sc.parts[a.name], sc.unit[a.name] = whole_part(rng, sc, a)
        elif a.name == sc.over:
            sc.parts[a.name], sc.unit[a.name] = over_part(rng, a)
        else:
            t = slice_part(rng, sc, a, ops)
            if t is not None:
                sc.parts[a.name] = t
    return fld, sc


def fourier_scene(rng, nmain=1, over=0.35):
    """Request of Fourier components of a real field"""
    while True:
        fld = fourier_field(rng, maxn=8, cplx=0.0, minn=3)
        names = [a.name for a in fld.axes if a.name in ("time", "angle") and len(a.full) > 2]
        wide = [a for a in sizes(fld)]
        if names and len(wide) >= nmain and fld.full.size < 4000:
            break
    sc = Scene()
    sc.fft = True
    names = shuffled(rng, names)
    ft = names if len(names) > 1 and (nmain > 1 or chance(rng, 0.4)) and chance(rng, 0.8) else names[:1]
    sc.main = [ft[0]]
    if nmain > 1:
        others = [n for n in ft[1:]] + [a.name for a in shuffled(rng, wide) if a.name not in ft]
        sc.main += others[: nmain - 1]
    cand = [a.name for a in wide if a.name not in sc.main]
    if cand and chance(rng, over):
        sc.over = pick(rng, cand)
    for a in fld.axes:
        nm = {"time": "freqs", "angle": "wavenumber"}[a.name] if a.name in ft else a.name
        sc.name[a.name] = nm
        if a.name in ft:
            n = len(a.oneperiod)
            nl = n // 2 + 1 if nm == "freqs" else n
            if a.name in sc.main:
                t, u = nm, ("Hz" if nm == "freqs" else "")
                k = pick(rng, ["whole", "whole", "unit", "range", "int"])
                if k == "unit" and nm == "freqs":
                    u = pick(rng, ["Hz", "kHz"])
                    t = "freqs{%s}" % u
                elif k == "range" and nm == "freqs":
                    t = "freqs[0:%d]" % max(2, nl - 1)
                elif k == "int":
                    f = a.full[1] - a.full[0]
                    f = 1.0 / (n * f) if nm == "freqs" else 1.0 * (a.n // (2 if a.is_aper else 1))
                    t = "%s=[%r,%r]" % (nm, 0.0, 1.6 * f)
            elif a.name == sc.over:
                idx = sorted(int(i) for i in rng.permutation(nl)[: min(3, nl)])
                if len(idx) < 2:
                    sc.over = None
                    t, u = nm + "[0]", ""
                else:
                    t, u = "%s[%s]" % (nm, ",".join(map(str, idx))), ("Hz" if nm == "freqs" else "")
            else:
                t, u = "%s[%d]" % (nm, int(rng.integers(nl))), ""
            sc.parts[a.name], sc.unit[a.name] = t, u
        elif a.name in sc.main:
            sc.parts[a.name], sc.unit[a.name] = whole_part(rng, sc, a, kinds=["whole", "range", "unit"])
        elif a.name == sc.over:
            sc.parts[a.name], sc.unit[a.name] = over_part(rng, a)
        else:
            t = slice_part(rng, sc, a, ops=False)
            if t is not None:
                sc.parts[a.name] = t
    return fld, sc


def answer(case, D, fld, sc, unit="SI", positive=False, db=False, ref=None):
    """Coordinates of the drawn axes and of the overlaid one, values with the drawn axes
    first (in order of sc.main) and the overlaid one last, read from the object itself"""
    args = []
    for a in fld.axes:
        t = sc.parts.get(a.name)
        if t is not None:
            if positive and t.split("{")[0] == "wavenumber":
                t = t.replace("wavenumber", "wavenumber>0")
            args.append(t)
    kw = dict(unit=unit, is_squeeze=False, axis_data=sc.axis_data)
    res = case.lib(D.get_magnitude_along if db else D.get_along, *args, **kw)
    v = np.asarray(res[fld.symbol])
    if sc.fft and not db:
        v = np.abs(v)
    if ref is not None:
        v = v / ref
    keep = [fld.index(n) for n in sc.main] + ([fld.index(sc.over)] if sc.over else [])
    lens = [np.size(res[sc.name[fld.axes[i].name]]) for i in keep]
    if db:
        # reduced axes may be dropped
        order = sorted(keep)
        v = v.reshape([lens[keep.index(i)] for i in order])
        v = np.transpose(v, [order.index(i) for i in keep])
    else:
        v = np.moveaxis(v, keep, range(len(keep))).reshape(lens)
    coords = {n: np.asarray(res[sc.name[n]]) for n in sc.main + ([sc.over] if sc.over else [])}
    sliced = []
    for a in fld.axes:
        if a.name in coords:
            continue
        if a.name in sc.parts:
            x = res[sc.name[a.name]]
            sliced.append(x if isinstance(x, str) else np.asarray(x).flat[0])
        elif not (a.sym == "pattern" and len(set(a.rebuild)) == 1):
            sliced.append(a.labels[0] if a.labels is not None else a.full[0])
    return coords, v, sliced


def ordered(rng, sc, first=True):
    """Texts to pass: the axis drawn first, the others anywhere after it"""
    head = [sc.parts[n] for n in sc.main]
    tail = [t for n, t in sc.parts.items() if n not in sc.main]
    if not first:
        return shuffled(rng, head + tail)
    return head + shuffled(rng, tail)


def own_ref(rng, fld, unit, p=0.15):
    """Reference declared with the field, to draw or write normalized values"""
    if unit != "SI" or fld.norms or not chance(rng, p):
        return None
    ref = pick(rng, [4.0, 0.5, 1e-3])
    fld.norms = {"ref": lambda: Norm_ref(ref=ref)}
    return ref


def fld_unit(rng, fld, p=0.4):
    return pick(rng, FUNITS[fld.unit]) if chance(rng, p) else "SI"


def numbers(text):
    return [float(s) for s in re.findall(r"=\s*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)", text)]
