"""C23: text files written from a request"""
import csv
import os

import numpy as np

from checks.c20 import Scratch
from checks.plots import OPS, answer, fld_unit, fourier_scene, numbers, ordered, own_ref, plain_scene
from mon.gen import Norm_ref, chance, pick

RULE = (
    "random field of one to four axes (plain, periodic, antiperiodic, pattern, labels) with a request of one axis, of one "
    "axis and overlaid samples of a second one, or of one, two or three axes as a matrix, other axes sliced by index or "
    "value, reduced or left out, in the stored domain or on Fourier lines, in any unit and in decibels; every file of the "
    "folder is parsed and compared cell by cell with the answer of the same request; distinct = axis classes x request"
)


def read(case, folder):
    out = {}
    for f in sorted(os.listdir(folder)):
        with open(os.path.join(folder, f), newline="") as h:
            out[f] = list(csv.reader(h))
    return out


def header(case, rows, fld, unit, what):
    r = rows[0]
    case.true(len(r) >= 3, what + ": header line", got=r)
    case.same(r[0], fld.symbol, what + ": symbol")
    case.same(r[1], fld.name, what + ": name")
    case.same(r[2], "[%s]" % unit, what + ": unit")
    return r[3] if len(r) > 3 else ""


def slices(case, text, sliced, what):
    """Numbers and labels following the equal signs"""
    got = numbers(text)
    for s in sliced:
        if isinstance(s, str):
            if s not in OPS:
                case.true("=" + s in text.replace("'", ""), "%s: slice %s in %r" % (what, s, text))
            continue
        near = [g for g in got if abs(g - s) <= 0.006 * abs(s) + 1e-300]
        case.true(len(near) > 0, "%s: slice value" % what, expected=s, text=text)


def number(case, cell, what):
    try:
        return float(cell)
    except ValueError:
        case.fail("%s: not a number" % what, cell=cell)


def block(case, rows, x, v, what):
    """Rows of the file against the coordinates and values"""
    v = v.reshape(len(x), -1)
    body = rows[2:]
    case.true(len(body) == len(x), "%s: one row per sample" % what, got=len(body), expected=len(x))
    for i, r in enumerate(body):
        case.true(len(r) == 1 + v.shape[1], "%s: one cell per value" % what, got=len(r), expected=1 + v.shape[1])
        if isinstance(x[i], str):
            case.true(r[0] == x[i] or number(case, r[0], what) == i, "%s: label of row %d" % (what, i), got=r[0], expected=x[i])
    if not isinstance(x[0], str):
        case.eq([number(case, r[0], what) for r in body], np.asarray(x, dtype=float), what + ": first column", rtol=1e-12)
    got = np.array([[number(case, c, what) for c in r[1:]] for r in body]).reshape(v.shape)
    case.eq(got, v, what + ": values", rtol=1e-12)


def unit_text(fld, unit, ref=None):
    u = fld.unit if unit == "SI" else unit
    if "dB" in u:
        u += " re. %s %s" % (ref, fld.unit)
    return u


def has_unit(case, text, unit, what):
    if unit is None:
        return
    if unit == "":
        case.true("°" not in text and "[m" not in text, "%s: no unit in %r" % (what, text))
    else:
        case.true("[%s]" % unit in text or text.endswith(" " + unit), "%s: unit %s in %r" % (what, unit, text))


def options(sc, ref):
    o = {}
    if sc.axis_data is not None:
        o["axis_data"] = sc.axis_data
    if ref is not None:
        o["is_norm"] = True
    return {"plot_options": o} if o else {}


def two_d(case, fft):
    rng = case.rng
    fld, sc = fourier_scene(rng) if fft else plain_scene(rng)
    ref = None
    unit = fld_unit(rng, fld)
    if fft and chance(rng, 0.2):
        ref = pick(rng, [1.0, 2e-5, 1e-3])
        unit = "dB"
        fld.norms = {"ref": lambda: Norm_ref(ref=ref)}
    nref = own_ref(rng, fld, unit)
    D = case.lib(fld.build)
    args = ordered(rng, sc)
    what = "file of %s" % args
    case.log(fld, args, unit, sc.axis_data)
    case.sig(fld.cls(), tuple(args), unit)
    coords, v, sliced = answer(case, case.lib(fld.build), fld, sc, unit, positive=True, db=unit == "dB", ref=nref)
    x = coords[sc.main[0]]
    if len(x) < 2 or (sc.over and len(coords[sc.over]) < 2):
        return
    if unit == "dB":
        v = np.where(v <= 0, np.nan, v)
    opts = options(sc, nref)
    with Scratch() as folder:
        case.lib(D.export_along, *args, unit=unit, save_path=folder, **opts)
        files = read(case, folder)
    case.same(sorted(files), [fld.symbol + "_Data.csv"], "one file named after the symbol")
    rows = files[fld.symbol + "_Data.csv"]
    text = header(case, rows, fld, unit_text(fld, unit, ref), what)
    if not sc.red and not (unit == "dB" and "speed" in fld.names()):
        # levels over speed forget the axes left out
        slices(case, text, sliced, what)
    block(case, rows, x, v, what)
    has_unit(case, rows[1][0].split("/")[0], sc.unit[sc.main[0]], what + ": axis label")
    if sc.over:
        o = coords[sc.over]
        case.true(len(rows[1]) == 1 + len(o), what + ": one heading per column", got=len(rows[1]))
        for c, e in zip(rows[1][1:], o):
            if isinstance(e, str):
                case.true(e in c, what + ": heading", got=c, expected=e)
            else:
                n = numbers(c)
                case.true(len(n) == 1 and abs(n[0] - e) <= 0.006 * abs(e), what + ": heading", got=c, expected=e)
                has_unit(case, c, sc.unit[sc.over] or None, what + ": heading")
    case.run.count("overlaid" if sc.over else "single")


def curve(case):
    two_d(case, False)


def fourier(case):
    two_d(case, True)


def matrix(case, nmain=None, fft=None):
    rng = case.rng
    nmain = nmain or pick(rng, [1, 2, 2, 3])
    fft = chance(rng, 0.4) if fft is None else fft
    while True:
        fld, sc = fourier_scene(rng, nmain, 0) if fft else plain_scene(rng, nmain, 0)
        if len(sc.main) == nmain:
            break
    unit = fld_unit(rng, fld)
    nref = own_ref(rng, fld, unit)
    D = case.lib(fld.build)
    args = ordered(rng, sc, first=False)
    if sc.axis_data is not None and chance(rng, 0.3):
        # points in decreasing order
        sc.axis_data = {k: np.asarray(p)[::-1].copy() for k, p in sc.axis_data.items()}
    # rows, columns and files follow the stored order of the axes
    sc.main.sort(key=fld.index)
    what = "matrix of %s" % args
    case.log(fld, args, unit, sc.axis_data)
    case.sig(fld.cls(), tuple(args), unit)
    coords, v, sliced = answer(case, case.lib(fld.build), fld, sc, unit, ref=nref)
    if min(v.shape) < 2:
        return
    if nmain == 3 and len(set(coords[sc.main[2]])) < v.shape[2]:
        # files are named after the coordinate
        return
    opts = options(sc, nref)
    if nmain == 3 or chance(rng, 0.2):
        opts["is_multiple_files"] = True
    name = fld.symbol + "_Data"
    if chance(rng, 0.3):
        name = opts["file_name"] = "result"
    with Scratch() as folder:
        if nmain == 3 and chance(rng, 0.1):
            case.raises("three axes in a single file", D.export_along, *args, is_2D=False, unit=unit, save_path=folder)
        case.lib(D.export_along, *args, is_2D=False, unit=unit, save_path=folder, **opts)
        files = read(case, folder)
    x = coords[sc.main[0]]
    if nmain < 3:
        case.same(sorted(files), [name + ".csv"], "one file")
        todo = [(name + ".csv", v, sliced)]
    else:
        w = coords[sc.main[2]]
        todo = []
        case.true(len(files) == len(w), "one file per sample of the third axis", got=sorted(files), expected=len(w))
        nm = sc.name[sc.main[2]]
        for i, e in enumerate(w):
            start = name + "_" + nm
            f = [f for f in files if f.startswith(start) and same_value(f[len(start):-4], e)]
            case.true(len(f) == 1, "file of the third axis sample", got=sorted(files), expected=e)
            todo.append((f[0], v[:, :, i], sliced + [e]))
    for f, vi, sl in todo:
        rows = files[f]
        text = header(case, rows, fld, unit_text(fld, unit), what)
        slices(case, text, sl, what)
        block(case, rows, x, vi, what)
        parts = rows[1][0].split("/") if nmain > 1 else [rows[1][0]]
        case.true(len(parts) == min(nmain, 2), what + ": axis labels", got=rows[1][0])
        for n, p in zip(sc.main, parts):
            case.true(p.startswith(sc.name[n]), what + ": axis label", got=p, expected=sc.name[n])
            has_unit(case, p, sc.unit[n], what + ": axis label")
        if nmain > 1:
            y = coords[sc.main[1]]
            case.true(len(rows[1]) == 1 + len(y), what + ": coordinates of the second axis", got=len(rows[1]), expected=len(y))
            for c, e in zip(rows[1][1:], y):
                case.true(same_value(c, e), what + ": coordinate of the second axis", got=c, expected=e)
    case.run.count("matrix%d" % nmain)


def same_value(text, e):
    if isinstance(e, str):
        return text == e
    try:
        return abs(float(text) - e) <= 1e-9 * abs(e)
    except ValueError:
        return False


def default(case):
    """No request: one period or pattern of every axis"""
    rng = case.rng
    while True:
        fld, sc = plain_scene(rng, 1, 0)
        n = len([a for a in fld.axes if len(stored(a)) > 1])
        if 1 <= n <= 3:
            break
    sc.main = [a.name for a in fld.axes if len(stored(a)) > 1]
    sc.parts = {a.name: a.name + ("[pattern]" if a.sym == "pattern" else "[oneperiod]") for a in fld.axes}
    sc.axis_data = None
    is_2D = n == 1 and chance(rng, 0.5)
    D = case.lib(fld.build)
    case.log(fld, is_2D)
    case.sig(fld.cls(), is_2D)
    coords, v, _ = answer(case, case.lib(fld.build), fld, sc)
    if n == 3 and len(set(coords[sc.main[2]])) < v.shape[2]:
        return
    with Scratch() as folder:
        case.lib(D.export_along, is_2D=is_2D, save_path=folder, is_multiple_files=n == 3)
        files = read(case, folder)
    if n < 3:
        todo = [(f, v) for f in files]
        case.true(len(files) == 1, "one file")
    else:
        w = coords[sc.main[2]]
        start = fld.symbol + "_Data_" + sc.main[2]
        todo = [(f, v[:, :, i]) for i, e in enumerate(w) for f in files if f.startswith(start) and same_value(f[len(start):-4], e)]
        case.true(len(todo) == len(files) == len(w), "one file per sample of the third axis", got=sorted(files), expected=w)
    for f, vi in todo:
        block(case, files[f], coords[sc.main[0]], vi, "default file")
        if n > 1:
            for c, e in zip(files[f][1][1:], coords[sc.main[1]]):
                case.true(same_value(c, e), "coordinate of the second axis", got=c, expected=e)


def stored(a):
    if a.labels is not None:
        return a.labels
    return a.stored if a.sym == "pattern" else a.oneperiod


SCENARIOS = [
    ("curve", curve, 500, 13500),
    ("fourier", fourier, 500, 13500),
    ("matrix", matrix, 600, 21000),
    ("default", default, 250, 7500),
]
