"""Steps shared by the checks"""
import numpy as np

from mon.gen import FUNITS, chance, pick, ratio
from mon.ref import extract


def shuffled(rng, seq):
    return [seq[i] for i in rng.permutation(len(seq))]


def request_args(rng, reqs, unit_of_field=None, units=None):
    """Texts in random order, sometimes with a field unit"""
    return shuffled(rng, [r.text for r in reqs])


def field_unit(rng, fld, p=0.3):
    """Random compatible field unit and the factor to it"""
    if chance(rng, p):
        u = pick(rng, FUNITS[fld.unit])
        return u, ratio(fld.unit, u)
    return "SI", 1.0


def slack(x):
    """Extracted axes regular within a thousandth of their step are stored as regular axes"""
    x = np.atleast_1d(np.asarray(x, dtype=float))
    if len(x) < 3:
        return 0.0
    t = 1e-3 * np.min(np.abs(np.diff(x)))
    return t if np.max(np.abs(x - np.linspace(x[0], x[-1], len(x)))) <= t else 0.0


def check_axis(case, got, exp, req, what):
    """Returned coordinates"""
    if exp is None:
        return
    if req.kind == "nearest":
        # the requested value or the sample it designates
        g = np.atleast_1d(np.asarray(got, dtype=float))
        case.true(g.shape == (1,), what + ": one coordinate", got=got)
        lim = abs(req.value - exp[0]) + 1e-9 * (abs(exp[0]) + abs(req.value))
        case.true(abs(g[0] - exp[0]) <= lim, what, got=g[0], expected=exp[0], requested=req.value)
        return
    case.eq(np.atleast_1d(got), exp, what)


def check_extraction(case, D, fld, reqs, rtol=1e-9, punit=0.3):
    """Runs a request made of extractions on every axis and compares it with the reference"""
    rng = case.rng
    args = shuffled(rng, [r.text for r in reqs] + (["nothing"] if chance(rng, 0.04) else []))
    u, k = field_unit(rng, fld, punit)
    exp, coords = extract(fld, reqs)
    kw = {} if u == "SI" and chance(rng, 0.5) else {"unit": u}
    case.log("get_along", args, kw)
    res = case.lib(D.get_along, *args, is_squeeze=False, **kw)
    case.true(fld.symbol in res, "result has the symbol", keys=sorted(res))
    got = res[fld.symbol]
    case.eq(got, exp * k if k != 1.0 else exp, "field of %s" % args, rtol=rtol)
    lens = []
    for a in fld.axes:
        r = [r for r in reqs if r.name == a.name]
        if r:
            check_axis(case, res[a.name], coords[a.name], r[0], "axis %s of %s" % (a.name, args))
            lens.append(np.size(res[a.name]))
        else:
            lens.append(1)
    case.true(tuple(lens) == np.shape(got), "shape is the tuple of axis lengths", lens=lens, shape=np.shape(got))
    # answers follow the stored order of the axes, as the values do
    order = [a.name for a in fld.axes if a.name in [r.name for r in reqs]]
    case.true([n for n in res if n in order] == order, "order of the axes of %s" % args, got=list(res), expected=order)
    case.true([a.name for a in res["axes_list"]] == order, "order of the requested axes of %s" % args, got=[a.name for a in res["axes_list"]], expected=order)
    # dropped size-one axes
    sq = case.lib(D.get_along, *args, **kw)[fld.symbol]
    case.eq(np.squeeze(np.asarray(sq)), np.squeeze(exp * k), "squeezed field of %s" % args, rtol=rtol)
    return res
