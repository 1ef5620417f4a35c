"""C27: objects holding both time/space and frequency data"""
import copy

import numpy as np

from SciDataTool import DataDual, DataFreq, DataTime
from checks.c05 import _All
from checks.c07 import line_axis
from checks.c08 import even_field, freq_object
from checks.common import field_unit, shuffled
from mon.gen import AXUNITS, Ax, Fld, Norm_ref, any_axis, chance, pick, ratio, rnd, values_for
from mon.objs import canon
from mon.ref import TR, extract, make_req, spectrum

RULE = (
    "time/space field and frequency field (its own spectrum, or unrelated values on unrelated axes) put in one object by the "
    "constructor or by either conversion, real or complex, with symmetries, normalizations and common axes; up to 12 requests "
    "(values, slices, magnitudes, phases, harmonics, extracted objects, reductions, units, norms, failing requests) from both "
    "domains in random order, each compared with a fresh single-domain object and, for plain slices, with the stored data; "
    "distinct = way of building x axes x kinds of requests"
)


def pair(rng, related):
    """Waveform field and frequency field (unrelated: other axes and values)"""
    fld = even_field(rng, cplx=0.3, pattern=chance(rng, 0.3))
    if related:
        return fld, freq_object(fld)[0]
    axes = []
    for a in fld.axes:
        if a.name in TR and chance(rng, 0.85):
            nm = TR[a.name]
            if nm == "freqs":
                axes.append(any_axis(rng, nm, start=0.0 if chance(rng, 0.6) else rnd(rng, 1, 40), n=int(rng.integers(2, 8))))
            else:
                k = np.sort(rng.permutation(21)[: int(rng.integers(2, 8))] - 10.0)
                axes.append(Ax(nm, "dimless", k))
        elif a.name in TR:
            axes.append(a)
        else:
            axes.append(a if chance(rng, 0.7) else any_axis(rng, a.name))
    if not any(a.name in ("freqs", "wavenumber") for a in axes):
        axes.append(any_axis(rng, "freqs", start=0.0, n=4))
    axes = shuffled(rng, axes)
    seen, ax2 = set(), []
    for a in axes:
        if a.name not in seen:
            ax2.append(a)
            seen.add(a.name)
    return fld, Fld(ax2, values_for(rng, ax2, "c"), symbol=fld.symbol, unit=fld.unit, name=fld.name, is_real=fld.is_real)


def dual(case, fld, frq, how):
    """Dual object and the two single-domain objects it stands for"""
    rng = case.rng
    T, F = fld.build(), frq.build()
    if how == "init":
        kw = {} if fld.is_real else {"is_real": False}
        if fld.norms:
            kw["normalizations"] = {k: f() for k, f in fld.norms.items()}
        X = case.lib(DataDual, name=fld.name, symbol=fld.symbol, unit=fld.unit, axes_dt=T.axes, values_dt=T.values, axes_df=F.axes, values_df=F.values, **kw)
    elif how == "time+freq":
        X = case.lib(fld.build().to_datadual, frq.build())
    elif how == "freq+time":
        X = case.lib(frq.build().to_datadual, fld.build())
    elif how == "time":
        X = case.lib(fld.build().to_datadual)
    else:
        X = case.lib(frq.build().to_datadual)
    return X


def request(rng, fld, spectral):
    """Random request answered by fld alone: method, args, kwargs, kind, reference"""
    reqs = []
    for a in view(fld).axes:
        if a.name in ("freqs", "wavenumber"):
            kinds = ["whole", "whole", "idx", "list", "range"] + ([] if a.sym else ["interval", "above"])
            reqs.append(make_req(rng, a, kinds))
        elif chance(rng, 0.8):
            reqs.append(make_req(rng, a, ["whole", "whole", "idx", "list", "range"]))
    if spectral and not any(r.name in ("freqs", "wavenumber") for r in reqs):
        return None
    return reqs


def nested(r):
    """Answer of a request with plain contents"""
    if isinstance(r, dict):
        return {k: nested(v) for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        return [nested(v) for v in r]
    if hasattr(r, "as_dict"):
        return ("object", type(r).__name__, nested(r.as_dict()))
    return r


def agree(case, got, exp, what):
    """Same nested answers, numbers exactly"""
    if isinstance(exp, dict):
        case.true(isinstance(got, dict) and sorted(map(str, got)) == sorted(map(str, exp)), what + ": entries", got=sorted(map(str, got)) if isinstance(got, dict) else got, expected=sorted(map(str, exp)))
        for k in exp:
            agree(case, got[k], exp[k], "%s[%s]" % (what, k))
    elif isinstance(exp, (list, tuple)):
        case.true(isinstance(got, (list, tuple)) and len(got) == len(exp), what + ": length", got=got, expected=exp)
        for a, b in zip(got, exp):
            agree(case, a, b, what)
    elif isinstance(exp, np.ndarray) or np.isscalar(exp):
        if isinstance(exp, str):
            case.true(got == exp, what, got=got, expected=exp)
        else:
            g, e = np.asarray(got), np.asarray(exp)
            case.true(g.shape == e.shape and bool(np.all((g == e) | ((g != g) & (e != e)))), what, got=g, expected=e)
    else:
        case.true(got == exp or type(got) is type(exp), what, got=got, expected=exp)


def plain(d):
    """Content of an extracted object, with axes"""
    return {
        "class": type(d).__name__,
        "symbol": d.symbol,
        "name": d.name,
        "unit": d.unit,
        "is_real": d.is_real,
        "values": np.asarray(d.values),
        "axes": [{"name": a.name, "unit": a.unit, "values": np.asarray(a.get_values(is_smallestperiod=True)), "sym": dict(a.symmetries)} for a in d.axes],
    }


def step(case, X, fld, frq, build):
    """One request on the dual object; the same on a fresh single-domain object"""
    rng = case.rng
    spectral = chance(rng, 0.5)
    src = frq if spectral else fld
    kind = pick(rng, ["slice", "slice", "along", "mag", "phase", "data", "harm", "reduce", "bad", "cross", "axes", "level", "compare", "period"])
    reqs = request(rng, src, spectral)
    if not reqs:
        return None
    S = build[spectral]()
    args = shuffled(rng, [r.text for r in reqs])
    u, k = field_unit(rng, src)
    kw = {} if u == "SI" else {"unit": u}
    if "ref" in src.norms and u == "SI" and chance(rng, 0.3):
        kw["is_norm"] = True
        k = 1.0 / src.norms["ref"]().ref
        if chance(rng, 0.4):
            kw["unit"] = src.unit
    what = "%s %s" % ("frequency" if spectral else "waveform", kind)
    case.log(what, args, kw)
    if kind in ("slice", "along"):
        kw["is_squeeze"] = kind == "along"
        got = case.lib(X.get_along, *args, **kw)
        agree(case, got, S.get_along(*args, **kw), what)
        if kind == "slice":
            exp, coords = extract(view(src), reqs)
            case.eq(got[src.symbol], exp * k, what + " of the stored data")
            for r in reqs:
                if src.ax(r.name).labels is None:
                    case.eq(np.atleast_1d(got[r.name]), coords[r.name], what + ": axis " + r.name)
    elif kind == "mag":
        agree(case, case.lib(X.get_magnitude_along, *args, **kw), S.get_magnitude_along(*args, **kw), what)
    elif kind == "phase":
        kw.pop("unit", None)
        agree(case, case.lib(X.get_phase_along, *args, **kw), S.get_phase_along(*args, **kw), what)
    elif kind == "data":
        kw.pop("is_norm", None)
        agree(case, plain(case.lib(X.get_data_along, *args, **kw)), plain(S.get_data_along(*args, **kw)), what)
    elif kind == "harm":
        if not spectral:
            return None
        names = [r.text if r.name in ("freqs", "wavenumber") else "%s[0]" % r.name for r in reqs]
        N = int(rng.integers(1, 5))
        case.log("harmonics", N, names)
        agree(case, case.lib(X.get_harmonics, N, *names, **kw), S.get_harmonics(N, *names, **kw), what)
    elif kind == "reduce":
        a = pick(rng, src.axes)
        names = ["%s=%s" % (a.name, pick(rng, ["max", "min", "sum", "mean", "rms"]))] + [b.name for b in src.axes if b is not a and chance(rng, 0.7)]
        if spectral and not any(n.startswith(("freqs", "wavenumber")) for n in names):
            return None
        if any(b.name in ("freqs", "wavenumber") for b in src.axes) and np.iscomplexobj(src.values) and names[0].split("=")[1] in ("max", "min"):
            names[0] = "%s=sum" % a.name
        case.log(names)
        agree(case, case.lib(X.get_along, *names, **kw), S.get_along(*names, **kw), what)
    elif kind == "bad":
        bad = pick(rng, [["%s=axis_data" % src.names()[0]], ["%s[999]" % src.names()[0]], args])
        if spectral and not any(n.startswith(("freqs", "wavenumber")) for n in bad):
            return None
        kb = {"unit": "kg"} if bad is args else {}
        case.log("failing", bad, kb)
        try:
            S.get_along(*bad, **kb)
        except Exception as e:
            case.raises("failing request", X.get_along, *bad, exc=type(e), **kb)
        else:
            return None
    elif kind == "cross":
        # axes of the other kind: answered from the frequency data as soon as one spectral axis is asked
        if not spectral or not fld.is_real or "freqs" not in frq.names() or "wavenumber" not in frq.names():
            return None
        ax = frq.ax("freqs")
        if not related_axes(frq):
            return None
        names = pick(rng, [["time", "wavenumber"], ["freqs", "angle"]]) + [b.name for b in frq.axes if b.name not in ("freqs", "wavenumber")]
        case.log(names)
        agree(case, case.lib(X.get_along, *shuffled(rng, names), **kw), S.get_along(*names, **kw), what)
    elif kind == "axes":
        nm = pick(rng, src.names())
        got = case.lib(X.get_axes, nm)
        other = fld if spectral else frq
        case.true(len(got) >= 1 and all(a.name == nm for a in got), "axis %s found" % nm, got=[a.name for a in got])
        if nm not in other.names():
            case.true(len(got) == 1, "axis %s found once" % nm, got=len(got))
            v = np.asarray(got[0].get_values(is_smallestperiod=True))
            e = np.asarray(S.get_axes(nm)[0].get_values(is_smallestperiod=True))
            case.true(v.shape == e.shape and np.all(v == e), "coordinates of axis %s" % nm, got=v, expected=e)
    elif kind == "level":
        if not spectral and "time" not in fld.names() and "freqs" in frq.names():
            # levels over speed without any frequency are computed in two steps (C13)
            return None
        un = pick(rng, ["dB", "dBA"])
        names = list(args)
        if spectral and chance(rng, 0.3):
            names = ["freqs=%s" % pick(rng, ["sum", "rss"]) if n.startswith("freqs") else n for n in names]
        kw = {"unit": un}
        case.log(names, un)
        try:
            exp = S.get_magnitude_along(*names, **kw)
        except Exception:
            case.raises("level without frequencies", X.get_magnitude_along, *names, **kw)
        else:
            agree(case, case.lib(X.get_magnitude_along, *names, **kw), exp, what)
    elif kind == "compare":
        names = [a.name for a in src.axes]
        other = build[spectral]()
        if any(a.labels is not None for a in src.axes):
            return None
        case.log(names)
        kw.pop("is_norm", None)
        agree(case, case.lib(X.compare_along, *names, data_list=[other], **kw), S.compare_along(*names, data_list=[other], **kw), what)
        agree(case, case.lib(S.compare_along, *names, data_list=[X], **kw), S.compare_along(*names, data_list=[other], **kw), what)
    elif kind == "period":
        got = bool(case.lib(X.has_period))
        each = [bool(b().has_period()) for b in build]
        case.true(got in each, "has a period", got=got, expected=each)
    return ("f" if spectral else "t") + kind


def view(src):
    """The same field with its lines as a plain axis: periods only describe the waveform"""
    axes = [line_axis(a.name, a.stored) if a.name in ("freqs", "wavenumber") else a for a in src.axes]
    return Fld(axes, src.values, symbol=src.symbol, unit=src.unit, is_real=src.is_real)


def related_axes(frq):
    return getattr(frq, "related", False)


def setup(case, related, how):
    rng = case.rng
    fld, frq = pair(rng, related)
    frq.related = related
    if chance(rng, 0.3):
        fld.norms = frq.norms = {"ref": lambda: Norm_ref(ref=2.5)}
    case.log(how, "waveform", fld)
    case.log("spectrum", frq)
    return fld, frq


def both(case):
    """Explicit data in both domains"""
    rng = case.rng
    related = chance(rng, 0.4)
    how = pick(rng, ["init", "time+freq", "freq+time"])
    fld, frq = setup(case, related, how)
    X = dual(case, fld, frq, how)
    case.true(type(X) is DataDual, "class", got=type(X).__name__)
    case.true((X.name, X.symbol, X.unit) == (fld.name, fld.symbol, fld.unit), "name, symbol and unit", got=(X.name, X.symbol, X.unit))
    case.true(bool(X.is_real) == fld.is_real, "real data flag", got=X.is_real)
    build = [fld.build, frq.build]
    kinds = []
    for _ in range(int(rng.integers(3, 13))):
        s = step(case, X, fld, frq, build)
        if s:
            kinds.append(s)
        if chance(rng, 0.08):
            case.log("copy")
            X = case.lib(X.copy)
            case.true(type(X) is DataDual, "class of the copy", got=type(X).__name__)
    # the stored data are still those given
    case.exact(X.values_dt, fld.values, "stored waveform")
    case.exact(X.values_df, frq.values, "stored components")
    case.sig(how, related, fld.cls(), sorted(set(kinds)))


def one(case):
    """Built from one domain: the other one by conversion"""
    rng = case.rng
    how = pick(rng, ["time", "freq"])
    fld, frq = setup(case, True, how)
    S = (fld if how == "time" else frq).build()
    X = dual(case, fld, frq, how)
    case.true((X.name, X.symbol, X.unit) == (fld.name, fld.symbol, fld.unit), "name, symbol and unit", got=(X.name, X.symbol, X.unit))
    case.true(bool(X.is_real) == fld.is_real, "real data flag", got=X.is_real)
    build = [fld.build, S.time_to_freq] if how == "time" else [S.freq_to_time, frq.build]
    v, lines = spectrum(fld, [n for n in fld.names() if n in TR])
    size = np.max(np.abs(fld.values))
    todo = shuffled(rng, ["t", "f", "t", "f"])
    for d in todo:
        if d == "t":
            args = shuffled(rng, fld.names())
            case.log("get_along", args)
            res = case.lib(X.get_along, *args, is_squeeze=False)
            case.eq(res[fld.symbol], fld.full, "waveform", rtol=1e-9, atol=1e-10 * size)
            for a in fld.axes:
                if a.labels is None:
                    case.eq(np.atleast_1d(res[a.name]), a.full, "axis " + a.name, rtol=1e-9)
            if "ref" in fld.norms:
                case.eq(case.lib(X.get_along, *args, is_squeeze=False, is_norm=True)[fld.symbol], fld.full / 2.5, "normalized waveform", rtol=1e-9, atol=1e-10 * size)
        else:
            args = shuffled(rng, [TR.get(n, n) for n in fld.names()])
            case.log("get_along", args)
            res = case.lib(X.get_along, *args, is_squeeze=False)
            case.eq(res[fld.symbol], v, "components", rtol=1e-9, atol=1e-10 * size)
            for n in lines:
                case.eq(np.atleast_1d(res[n]), lines[n], "lines " + n, atol=1e-9)
        for _ in range(2):
            # exactly as the converted object
            src = fld if chance(rng, 0.5) else frq
            r = request(rng, src, src is frq)
            if r:
                a2 = shuffled(rng, [q.text for q in r])
                case.log("get_along", a2)
                agree(case, case.lib(X.get_along, *a2), build[int(src is frq)]().get_along(*a2), "answer to %s" % a2)
    case.sig(how, fld.cls(), fld.is_real)


SCENARIOS = [
    ("both", both, 600, 10000),
    ("one", one, 300, 5000),
]
