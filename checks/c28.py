"""C28: axes made of labels"""
import numpy as np

from SciDataTool import Data1D
from checks.c05 import OPS, _All, ops_for
from checks.c07 import fourier_field, line_axis
from checks.common import field_unit, shuffled
from mon.gen import Ax, Fld, any_axis, chance, pick, rnd, values_for
from mon.ref import TR, extract, make_req, reduce, spectrum

RULE = (
    "fields with one or two label axes (1 to 18 labels of one to three parts, delimiters, labels that are parts of other "
    "labels, digits, blanks, repeated parts, repeated labels) among numeric axes in any storage order; labels selected by index, list, range, "
    "whole, N largest, left out or reduced, the other axes extracted, transformed or reduced; filters built from the parts with "
    "every subset of allowed parts, and broken in every way; compared with the slices by position; distinct = axis classes x "
    "kind of selection"
)
PARTS = ["a", "b", "ab", "ba", "10", "1", "0", "stator", "rotor", "stator yoke", "-", "r=2", "max", "mean", "x[0]", "slot", "slots", "SI", "N"]


def labels(rng, n, parts=None, shared=False, twice=0.0):
    """Labels of the given number of parts, sometimes twice the same; per part the allowed items"""
    p = parts or int(pick(rng, [1, 2, 2, 3]))
    delim = pick(rng, ["_", "/", ".", ", ", "-->", " "])
    ok = [s for s in PARTS if delim not in s and (delim.strip() == "" or delim.strip() not in s)]
    # items belong to one part only, sometimes to several
    ok = shuffled(rng, ok)
    cols = []
    for j in range(p):
        m = int(rng.integers(1, 4))
        cols.append(ok[:m])
        if not shared or chance(rng, 0.5):
            ok = ok[m:]
        else:
            ok = shuffled(rng, ok)
    allv = [()]
    for c in cols:
        allv = [v + (s,) for v in allv for s in c]
    allv = shuffled(rng, allv)[: max(1, n)]
    if chance(rng, twice):
        allv = shuffled(rng, allv + allv[: int(rng.integers(1, 3))])
    return [delim.join(v) for v in allv], allv, cols, delim


def label_axis(rng, name, n=None):
    n = n or int(rng.integers(1, 9) if chance(rng, 0.8) else rng.integers(9, 19))
    if chance(rng, 0.5):
        lab = shuffled(rng, PARTS)[:n]
    else:
        lab = labels(rng, n)[0]
    a = Ax(name, pick(rng, ["dimless", "SI", "m"]), np.arange(len(lab)), "comp")
    a.labels = list(lab)
    return a


def same_labels(case, got, exp, what):
    got = [str(s) for s in np.atleast_1d(np.asarray(got, dtype=object)).ravel()]
    case.true(got == list(exp), what, got=got, expected=list(exp))


def with_labels(rng, fld):
    """Inserts one or two label axes"""
    for nm in pick(rng, [["phase"], ["phase"], ["phase", "loc"]]):
        fld.axes.insert(int(rng.integers(len(fld.axes) + 1)), label_axis(rng, nm))
    fld.axes = [a for a in fld.axes if a.labels is None or a.name in ("phase", "loc")]
    uniq, seen = [], set()
    for a in fld.axes:
        if a.name not in seen:
            uniq.append(a)
            seen.add(a.name)
    fld.axes = uniq
    fld.values = values_for(rng, fld.axes, "f" if fld.is_real else "c")
    return fld


def choose(rng, a):
    """Selection of labels: request text, positions"""
    n = len(a.labels)
    kind = pick(rng, ["whole", "all", "idx", "idx", "neg", "list", "range", "largest", "absent"])
    if kind == "absent":
        return None, [0], kind
    if kind == "largest":
        N = int(rng.integers(1, n + 1))
        return "%s[%dlargest]" % (a.name, N), None, kind
    r = make_req(rng, a, [kind])
    return r.text, r.idx, kind


def get(case, D, fld, args, k, u, magnitude=False):
    kw = {} if u == "SI" else {"unit": u}
    case.log("get_along", args, kw)
    f = D.get_magnitude_along if magnitude else D.get_along
    return case.lib(f, *args, is_squeeze=False, **kw)


def select(case):
    rng = case.rng
    names = shuffled(rng, pick(rng, [[], ["time"], ["angle"], ["time", "angle"], ["z"], ["speed", "load"]]))
    axes = [any_axis(rng, nm, sym="any" if nm in ("time", "angle", "z") else None) for nm in names]
    fld = with_labels(rng, Fld(axes, None, unit=pick(rng, ["T", "N"]), is_real=not chance(rng, 0.2)))
    case.log(fld, [a.labels for a in fld.axes if a.labels])
    D = case.lib(fld.build)
    for _ in range(3):
        args, reqs, kinds, large = [], [], [], []
        for a in fld.axes:
            if a.labels is None:
                if chance(rng, 0.8):
                    r = make_req(rng, a, ["whole", "idx", "list", "range"])
                    reqs.append(r)
                    args.append(r.text)
                continue
            text, idx, kind = choose(rng, a)
            kinds.append(kind)
            if kind == "largest":
                large.append((a, int(text.split("[")[1].split("l")[0])))
            if text is not None:
                args.append(text)
                q = _All(a)
                q.idx = idx if idx is not None else q.idx
                reqs.append(q)
        if not args:
            continue
        exp, coords = extract(fld, reqs)
        u, k = field_unit(rng, fld)
        res = get(case, D, fld, shuffled(rng, args), k, u)
        if not large:
            case.eq(res[fld.symbol], exp * k, "slices of %s" % args)
            for a in fld.axes:
                if a.name in coords:
                    if a.labels is not None:
                        same_labels(case, res[a.name], coords[a.name], "labels of %s" % a.name)
                    else:
                        case.eq(np.atleast_1d(res[a.name]), coords[a.name], "axis %s" % a.name)
        else:
            # the labels returned are labels of the axis, each once, with their own slices
            sel = exp
            for a, N in large:
                i = fld.index(a.name)
                got = [str(s) for s in np.atleast_1d(res[a.name])]
                case.true(len(got) == N and len(set(got)) == N and all(s in a.labels for s in got), "%d labels of %s" % (N, a.name), got=got)
                sel = np.take(sel, [a.labels.index(s) for s in got], axis=i)
            case.eq(res[fld.symbol], sel * k, "slices of the returned labels %s" % args)
            for a in fld.axes:
                if a.labels is not None and a.name in coords and a.name not in [b.name for b, _ in large]:
                    same_labels(case, res[a.name], coords[a.name], "labels of %s" % a.name)
        case.sig("select", fld.cls(), sorted(kinds))


def largest(case):
    """N largest labels by the given ranking"""
    rng = case.rng
    fld = with_labels(rng, Fld([any_axis(rng, "speed")] if chance(rng, 0.5) else [], None, is_real=True))
    a = [a for a in fld.axes if a.labels is not None][0]
    n = len(a.labels)
    order = [int(i) for i in rng.permutation(n)]
    axes = [b.build() for b in fld.axes]
    i = fld.index(a.name)
    axes[i].sort_indices = order
    D = case.lib(fld.build, axes=axes)
    for _ in range(2):
        N = int(rng.integers(1, n + 1))
        args = ["%s[%dlargest]" % (a.name, N)] + [b.name for b in fld.axes if b is not a]
        case.log(a.labels, order, args)
        res = case.lib(D.get_along, *shuffled(rng, args), is_squeeze=False)
        same_labels(case, res[a.name], [a.labels[j] for j in order[:N]], "largest labels")
        case.eq(res[fld.symbol], np.take(fld.full, order[:N], axis=i), "slices of the largest labels")
        for b in fld.axes:
            if b is not a and b.labels is not None:
                same_labels(case, res[b.name], b.labels, "labels of %s" % b.name)
    case.sig("largest", n, len(fld.axes))


def reduced(case):
    """Reductions over the labels and over the other axes"""
    rng = case.rng
    names = shuffled(rng, pick(rng, [[], ["time"], ["angle"], ["time", "z"], ["speed"], ["load"]]))
    axes = [any_axis(rng, nm, sym="any" if nm in ("time", "angle") else None, uniform=True) for nm in names]
    fld = with_labels(rng, Fld(axes, None, unit=pick(rng, ["T", "N"]), is_real=True))
    case.log(fld, [a.labels for a in fld.axes if a.labels])
    D = case.lib(fld.build)
    for _ in range(2):
        args, keep, red, kinds = [], [], [], []
        tol = np.max(np.abs(fld.values))
        for i, a in enumerate(fld.axes):
            if a.labels is not None and chance(rng, 0.5):
                op = pick(rng, [o for o in OPS if o != "integrate"])
                red.append((i, a, op))
            elif a.labels is None and chance(rng, 0.4):
                red.append((i, a, pick(rng, ops_for(a))))
            elif a.labels is not None:
                text, idx, kind = choose(rng, a)
                if kind == "largest":
                    text, idx, kind = a.name, list(range(len(a.labels))), "whole"
                if text is not None:
                    args.append(text)
                    q = _All(a)
                    q.idx = idx
                    keep.append(q)
                kinds.append(kind)
            else:
                r = make_req(rng, a, ["whole", "idx", "list"], unit_p=0)
                args.append(r.text)
                keep.append(r)
        for i, a, op in red:
            args.append("%s=%s" % (a.name, op))
            keep.append(_All(a))
            tol *= len(a.full) * (1 if a.labels is not None else 1 + abs(a.full[-1] - a.full[0]))
        if not args:
            continue
        v, coords = extract(fld, keep)
        for i, a, op in red:
            v = reduce(v, None if a.labels is not None else a.full, i, op, a.is_phys, closing=a.sym != "pattern")
        u, k = field_unit(rng, fld)
        res = get(case, D, fld, shuffled(rng, args), k, u)
        case.eq(res[fld.symbol], v * k, "reduction %s" % args, atol=1e-11 * tol * abs(k))
        for a in fld.axes:
            if a.labels is not None and a.name in coords and a.name not in [b.name for _, b, _ in red]:
                same_labels(case, res[a.name], coords[a.name], "labels of %s" % a.name)
        for _, a, op in red:
            case.same(res[a.name], op, "label of the reduced axis %s" % a.name)
        case.sig("reduced", sorted("%s:%s" % (a.cls(), op) for _, a, op in red), sorted(kinds))


def fourier(case):
    """Spectra along the other axes stay aligned with the labels"""
    rng = case.rng
    fld = with_labels(rng, fourier_field(rng, maxn=9, pattern=False))
    ft = [n for n in fld.names() if n in TR and chance(rng, 0.8)] or [[n for n in fld.names() if n in TR][0]]
    v, lines = spectrum(fld, ft)
    case.log(fld, [a.labels for a in fld.axes if a.labels])
    D = case.lib(fld.build)
    S = Fld([line_axis(TR[a.name], lines[TR[a.name]]) if a.name in ft else a for a in fld.axes], v, unit=fld.unit)
    args, keep, kinds, red = [], [], [], []
    for i, a in enumerate(S.axes):
        if a.labels is not None and chance(rng, 0.25):
            op = pick(rng, ["sum", "mean"])
            red.append((i, a, op))
            keep.append(_All(a))
            args.append("%s=%s" % (a.name, op))
        elif a.labels is not None:
            text, idx, kind = choose(rng, a)
            if kind == "largest":
                text, idx, kind = a.name + "[]", list(range(len(a.labels))), "all"
            kinds.append(kind)
            if text is not None:
                args.append(text)
                q = _All(a)
                q.idx = idx
                keep.append(q)
        else:
            r = make_req(rng, a, ["whole", "idx", "list"] if a.name not in lines else ["whole"], unit_p=0)
            args.append(r.text)
            keep.append(r)
    w, coords = extract(S, keep, values=v)
    for i, a, op in red:
        w = reduce(w, None, i, op, False)
    if fld.is_real and list(lines) == ["wavenumber"]:
        kk = lines["wavenumber"]
        if np.min(kk) >= 0:
            return
    u, k = field_unit(rng, fld)
    mag = chance(rng, 0.3) and not red
    res = get(case, D, fld, shuffled(rng, args), k, u, mag)
    case.eq(res[fld.symbol], (np.abs(w) if mag else w) * k, "components %s" % args, atol=1e-10 * abs(k) * np.max(np.abs(fld.values)) * max(1, v.size))
    for a in S.axes:
        if a.name not in coords or a.name in [b.name for _, b, _ in red]:
            continue
        if a.labels is not None:
            same_labels(case, res[a.name], coords[a.name], "labels of %s" % a.name)
        else:
            case.eq(np.atleast_1d(res[a.name]), coords[a.name], "axis %s" % a.name, atol=1e-9)
    case.sig("fourier", fld.cls(), sorted(ft), sorted(kinds), len(red))


def filters(case):
    rng = case.rng
    n = int(rng.integers(1, 13))
    shared = chance(rng, 0.3)
    lab, vals, cols, delim = labels(rng, n, shared=shared, twice=0.15)
    p = len(cols)
    keys = shuffled(rng, ["part", "order", "origin", "a", "k"])[:p]
    # items listed in any order, with items no label has
    flt = {}
    for kx, c in zip(keys, cols):
        extra = [s for s in ["unused", "zz"] if chance(rng, 0.2)]
        flt[kx] = shuffled(rng, list(c) + [e + kx for e in extra])
    # parts described in any order, except when it alone tells which part is which
    flt = {kx: flt[kx] for kx in (keys if shared else shuffled(rng, keys))}
    kw = dict(name=pick(rng, ["phase", "loads"]), unit="dimless", values=list(lab) if chance(rng, 0.5) else np.array(lab), is_components=True, delimiter=delim, filter={a: list(b) for a, b in flt.items()})
    case.log(lab, delim, flt)
    A = case.lib(Data1D, **kw)
    # order in which the parts appear in the labels
    case.true(list(case.lib(A.check_filter)) == keys, "parts in the order of the labels", got=A.check_filter(), expected=keys)
    for _ in range(4):
        want = {kx: [s for s in flt[kx] if chance(rng, 0.6)] for kx in keys}
        if chance(rng, 0.3):
            want[pick(rng, keys)].append("nothing")
        if chance(rng, 0.3):
            want = {kx: shuffled(rng, want[kx]) for kx in shuffled(rng, keys)}
        exp = [i for i, v in enumerate(vals) if all(s in want[kx] for s, kx in zip(v, keys))]
        case.log("get_filter", want)
        keep = {a: list(b) for a, b in want.items()}
        got = case.lib(A.get_filter, want)
        case.true([int(i) for i in got] == exp, "indices of the labels kept", got=got, expected=exp)
        case.true(want == keep, "the filter is only read")
        # used as an index request
        if exp:
            D = Fld([], None)
            ax = Ax(kw["name"], "dimless", np.arange(len(lab)), "comp")
            ax.labels = list(lab)
            f = Fld([ax], values_for(rng, [ax], "f"))
            res = case.lib(f.build(axes=[A]).get_along, "%s[%s]" % (kw["name"], ",".join(str(i) for i in got)), is_squeeze=False)
            case.eq(res["B"], f.values[exp], "slices of the labels kept")
            same_labels(case, res[kw["name"]], [lab[i] for i in exp], "labels kept")
    case.true(A.filter == flt, "the axis keeps its filter", got=A.filter)
    case.sig("filters", p, len(lab), delim)


def broken(case):
    """Ill-defined filters"""
    rng = case.rng
    n = int(rng.integers(2, 9))
    lab, vals, cols, delim = labels(rng, n)
    p = len(cols)
    keys = ["part", "order", "origin"][:p]
    flt = {kx: list(c) for kx, c in zip(keys, cols)}
    want = {kx: list(c) for kx, c in zip(keys, cols)}
    how = pick(rng, ["swap", "item", "more", "less", "label", "unknown", "wmore", "wless"])
    lab = list(lab)
    only = False
    if how == "item":
        # an item used by a label is not described
        v = pick(rng, vals)
        j = int(rng.integers(p))
        flt[keys[j]] = [s for s in flt[keys[j]] if s != v[j]]
    elif how == "swap":
        # parts of one label in another order than those of the others
        if p == 1 or len(lab) == 1:
            return
        i = int(rng.integers(len(lab)))
        lab[i] = delim.join(vals[i][::-1])
    elif how == "more":
        flt["other"] = ["q"]
        if chance(rng, 0.5):
            want["other"] = ["q"]
    elif how == "less":
        if p == 1:
            return
        del flt[keys[-1]]
        del want[keys[-1]]
    elif how == "label":
        # a label with another number of parts, anywhere
        i = int(rng.integers(len(lab)))
        lab[i] = lab[i] + delim + cols[-1][0]
    elif how == "unknown":
        want[keys[0] + "x"] = want.pop(keys[0])
        only = True
    elif how == "wmore":
        want["other"] = ["q"]
        only = True
    elif how == "wless":
        del want[keys[0]]
        only = True
    case.log(how, lab, delim, flt, want)
    A = case.lib(Data1D, name="phase", unit="dimless", values=lab, is_components=True, delimiter=delim, filter=flt)
    if only:
        case.lib(A.check_filter)
    else:
        case.raises("check of a filter ill-defined by %s" % how, A.check_filter)
    case.raises("filtering with a filter ill-defined by %s" % how, A.get_filter, want)
    case.sig("broken", how, p)


SCENARIOS = [
    ("select", select, 300, 7500),
    ("largest", largest, 100, 3000),
    ("reduced", reduced, 300, 7500),
    ("fourier", fourier, 300, 7500),
    ("filters", filters, 300, 7500),
    ("broken", broken, 300, 6000),
]
