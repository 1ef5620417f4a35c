"""C16: set operations with tolerance"""
import numpy as np

from mon.gen import chance, pick
from SciDataTool.Functions.set_routines import intersect1d_tol, union1d_tol, unique_tol

RULE = (
    "random arrays with exact duplicates, duplicates up to rounding errors, values inside and outside the tolerance, signs, zeros, "
    "integers, rows and columns of 2-D arrays, every flag, relative and absolute tolerance; groups recomputed element by element "
    "on the tolerance grid; distinct = function x flags x size x kind of tolerance"
)


def tolerance(rng, a):
    """Keyword arguments, effective tolerance"""
    t = float(pick(rng, [1e-6, 1e-4, 1e-3, 1e-2]))
    kw = {} if t == 1e-6 and chance(rng, 0.5) else {"tol": t}
    if chance(rng, 0.5):
        return dict(kw, is_abs_tol=True), t
    e = t * float(np.max(np.abs(a)))
    if e > 1 or e == 0:
        e = 1.0
    return kw, e


def scaled(rng, *arrays):
    """Other orders of magnitude"""
    k = 10.0 ** float(rng.integers(-12, 7)) if chance(rng, 0.3) else 1
    return [x * k for x in arrays]


def values(rng, n, t, pool=None):
    """n values around grid points of step t (at most 0.3 t away), some of them several times"""
    m = max(1, int(n * rng.random()) + 1)
    kind = pick(rng, ["nice", "any", "int"])
    if kind == "int":
        base = rng.integers(-20, 20, m).astype(float)
    elif kind == "nice":
        base = rng.integers(-200, 200, m) * float(pick(rng, [0.1, 0.25, 1.0, 2.5]))
    else:
        base = rng.standard_normal(m) * 10 ** float(rng.integers(-1, 4))
    if pool is not None and chance(rng, 0.9):
        k = int(rng.integers(1, m + 1))
        base[:k] = rng.choice(pool, k)
    v = base[rng.integers(0, m, n)]
    j = pick(rng, ["none", "ulp", "near", "mixed"])
    if j in ("ulp", "mixed"):
        v = v * (1 + rng.integers(-4, 5, n) * 1.1e-16)
    if j in ("near", "mixed"):
        v = v + (rng.random(n) - 0.5) * 0.5 * t * (rng.random(n) < 0.6)
    return v


def grid(a, t):
    """Grid number of each value; None if one of them is at the limit of two cells"""
    q = a / t
    if np.any(np.abs(q - np.floor(q) - 0.5) < 1e-5 * (1 + 0 * q)) or np.max(np.abs(q)) > 1e12:
        return None
    return np.floor(q + 0.5) + 0.0


def groups(keys):
    """dict key -> positions, in order of appearance"""
    out = {}
    for i, k in enumerate(keys):
        out.setdefault(k, []).append(i)
    return out


def unique(case):
    rng = case.rng
    n = int(rng.integers(1, 30))
    nd = chance(rng, 0.3)
    t0 = 1e-3
    if nd:
        w = int(rng.integers(1, 4))
        a = values(rng, n, t0)[:, None] + 0 * np.zeros((n, w))
        for j in range(1, w):
            a[:, j] = values(rng, n, t0)
        if chance(rng, 0.5):
            a = a[rng.integers(0, n, n)]
    else:
        a = values(rng, n, t0)
        if chance(rng, 0.1):
            a = np.round(a).astype(int)
    if chance(rng, 0.05):
        a = a * 0
    a = scaled(rng, a)[0]
    kw, t = tolerance(rng, a)
    g = grid(np.asarray(a, dtype=float), t)
    if g is None:
        return
    keys = [tuple(r) for r in g] if nd else g.tolist()
    gr = groups(keys)
    flags = {k: True for k in ("return_index", "return_inverse", "return_counts", "is_stable") if chance(rng, 0.5)}
    case.log("a", a.tolist(), kw, flags)
    b0 = a.copy()
    col = nd and chance(rng, 0.3)
    res = case.lib(unique_tol, a.T.copy() if col else a, **kw, **flags, **({"axis": 1} if col else {}))
    case.true(np.array_equal(a, b0), "input unchanged")
    outs = [k for k in ("return_index", "return_inverse", "return_counts") if k in flags]
    if outs:
        case.true(isinstance(res, tuple) and len(res) == 1 + len(outs), "number of results", got=type(res))
        b, rest = res[0], dict(zip(outs, res[1:]))
    else:
        b, rest = res, {}
    b = np.asarray(b).T if col else np.asarray(b)
    stable = "is_stable" in flags
    order = list(gr) if stable else sorted(gr)
    case.true(b.shape == (len(gr),) + a.shape[1:], "number of unique values", got=b.shape, expected=len(gr))
    for i, k in enumerate(order):
        case.true(any(np.array_equal(b[i], a[p]) for p in gr[k]), "unique value %d is one of the inputs of its group" % i, got=b[i], expected=k)
        case.true(all(np.all(np.abs(b[i] - a[p]) <= t * (1 + 1e-9)) for p in gr[k]), "inputs within the tolerance of their unique value")
    if "return_index" in rest:
        Ia = np.asarray(rest["return_index"])
        case.exact(np.asarray(a[Ia]), b, "direct index")
        if stable:
            case.exact(Ia, np.array([gr[k][0] for k in order]), "direct index in order of appearance")
    if "return_inverse" in rest:
        case.exact(np.asarray(rest["return_inverse"]).ravel(), np.array([order.index(k) for k in keys]), "inverse index")
    if "return_counts" in rest:
        case.exact(np.asarray(rest["return_counts"]), np.array([len(gr[k]) for k in order]), "counts")
    case.run.count("merged inputs", n - len(gr))
    case.sig("unique", sorted(flags), sorted(kw), n, nd, len(gr))


def union(case):
    rng = case.rng
    t0 = 1e-3
    x = values(rng, int(rng.integers(1, 20)), t0)
    y = values(rng, int(rng.integers(1, 20)), t0, x)
    x, y = scaled(rng, x, y)
    kw, t = tolerance(rng, np.concatenate((x, y)))
    g = grid(np.concatenate((x, y)), t)
    if g is None:
        return
    gr = groups(g.tolist())
    ind = chance(rng, 0.7)
    case.log("x", x.tolist(), "y", y.tolist(), kw, ind)
    res = case.lib(union1d_tol, x, y, **kw, **({"return_indices": True} if ind else {}))
    b = np.asarray(res[0] if ind else res)
    order = sorted(gr)
    xy = np.concatenate((x, y))
    case.true(b.shape == (len(order),), "number of values of the union", got=b, expected=len(order))
    for i, k in enumerate(order):
        case.true(any(b[i] == xy[p] for p in gr[k]), "value %d of the union is one of the inputs of its group" % i, got=b[i], expected=k * t)
    if ind:
        case.true(len(res) == 3, "number of results")
        for v, I, w in ((x, res[1], "first"), (y, res[2], "second")):
            I = np.asarray(I)
            case.true(I.shape == v.shape, "shape of the index of the %s array" % w)
            case.true(bool(np.all(np.abs(b[I] - v) <= t * (1 + 1e-9))), "index of the %s array designates values within the tolerance" % w, got=b[I], expected=v)
            d = np.abs(b[None, :] - v[:, None])
            case.true(bool(np.all(d[np.arange(len(v)), I] <= d.min(axis=1) + 1e-12 * np.max(np.abs(xy)))), "index of the %s array designates the closest value" % w)
    case.sig("union", ind, sorted(kw), len(x), len(y), len(gr))


def inter(case):
    rng = case.rng
    t0 = 1e-3
    x = values(rng, int(rng.integers(1, 20)), t0)
    y = values(rng, int(rng.integers(1, 20)), t0, x)
    x, y = scaled(rng, x, y)
    kw, t = tolerance(rng, x)
    gx, gy = grid(x, t), grid(y, t)
    if gx is None or gy is None:
        return
    uniq = chance(rng, 0.3)
    if uniq:
        # one value of each group
        px = [v[0] for v in groups(gx.tolist()).values()]
        py = [v[0] for v in groups(gy.tolist()).values()]
        if "is_abs_tol" not in kw and np.max(np.abs(x[px])) != np.max(np.abs(x)):
            return
        x, gx, y, gy = x[px], gx[px], y[py], gy[py]
        kw["assume_unique"] = True
    grx, gry = groups(gx.tolist()), groups(gy.tolist())
    common = sorted(k for k in grx if k in gry)
    ind = chance(rng, 0.7)
    case.log("x", x.tolist(), "y", y.tolist(), kw, ind)
    res = case.lib(intersect1d_tol, x, y, **kw, **({"return_indices": True} if ind else {}))
    b = np.asarray(res[0] if ind else res)
    case.true(b.shape == (len(common),), "number of common values", got=b, expected=[k * t for k in common])
    for i, k in enumerate(common):
        case.true(any(b[i] == x[p] for p in grx[k]), "common value %d is taken from the first array" % i, got=b[i], expected=k * t)
    if ind:
        case.true(len(res) == 3, "number of results")
        Ia, Ib = np.asarray(res[1]), np.asarray(res[2])
        case.exact(x[Ia], b, "index in the first array")
        case.true(bool(np.all(np.abs(y[Ib] - b) <= t * (1 + 1e-9))), "index in the second array designates values within the tolerance", got=y[Ib], expected=b)
    case.run.count("common values", len(common))
    case.sig("intersection", ind, sorted(kw), len(x), len(y), len(common))


SCENARIOS = [("unique", unique, 3000, 60000), ("union", union, 1600, 30000), ("inter", inter, 1600, 30000)]
