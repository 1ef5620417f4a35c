"""C30: recovery of undersampled signals"""
import numpy as np

from SciDataTool import Data1D, DataLinspace, DataND, DataTime
from SciDataTool.Functions.omp import comp_undersampled_axe, comp_undersampling, omp
from checks.common import shuffled
from mon.gen import chance, pick, rnd

RULE = (
    "combinations of one to five cosine cos(pi k (i+1/2)/n) and sine sin(pi k i/n) atoms on grids of 20 to 160 samples, kept "
    "on a random subset of 25 to 100 % of the samples (helper or own choice), one signal or several, one or two axes in either "
    "order; a case counts when a plain greedy pursuit written for the check selects only true atoms with a margin; "
    "distinct = number of atoms x signals x subset kind"
)


def atom(n, kind, k):
    i = np.arange(n)
    if kind == "cos":
        v = np.cos(np.pi * k * (i + 0.5) / n)
    else:
        v = np.sin(np.pi * k * i / n)
    return v / np.sqrt(np.sum(v**2))


def atoms(n):
    keys = [("cos", k) for k in range(n)] + [("sin", k) for k in range(1, n)]
    return keys, np.stack([atom(n, *k) for k in keys], axis=1)


def recoverable(D, M, y, true):
    """Greedy pursuit, by plain and by normalized correlation, takes true atoms only, clearly"""
    X = D[M]
    for norm in (np.ones(X.shape[1]), np.linalg.norm(X, axis=0)):
        sel, r = [], y.copy()
        for _ in true:
            c = np.abs(X.T @ r) / norm
            c[sel] = 0
            j = int(np.argmax(c))
            if j not in true or c[j] < 1.0002 * max([c[i] for i in range(len(c)) if i not in true]):
                return False
            sel.append(j)
            sub = X[:, sel]
            if np.linalg.cond(sub) > 1e3:
                return False
            r = y - sub @ np.linalg.lstsq(sub, y, rcond=None)[0]
    return True


def subset(case, n, T, x):
    rng = case.rng
    K = pick(rng, [0.25, 0.3, 0.4, 0.5, 0.6, 0.75, 0.9, 1.0, rnd(rng, 0.25, 1)])
    if chance(rng, 0.7):
        seed = int(rng.integers(0, 10**6))
        case.log("comp_undersampling", K, "seed", seed)
        M, Tu = case.lib(comp_undersampling, K, T, seed=seed)
        helper(case, n, T, x, K, M, Tu)
        return np.asarray(M), Tu, "helper"
    m = max(2, int(round(K * n)))
    M = np.sort(rng.choice(n, m, replace=False))
    return M, Data1D(name=T.name, unit=T.unit, values=x[M].copy()), "own"


def helper(case, n, T, x, K, M, Tu):
    M = np.asarray(M)
    case.true(M.ndim == 1 and np.issubdtype(M.dtype, np.integer), "indices", got=M)
    case.true(np.all(np.diff(M) > 0), "sorted distinct indices", got=M)
    case.true(len(M) == 0 or (M[0] >= 0 and M[-1] < n), "indices of the grid", got=M)
    case.true(abs(len(M) - K * n) < 1, "number of indices", got=len(M), expected=K * n)
    case.exact(Tu.values, x[M], "kept samples of the axis")
    case.true((Tu.name, Tu.unit) == (T.name, T.unit), "name and unit of the axis", got=(Tu.name, Tu.unit))


def grid(rng):
    n = int(pick(rng, [20, 32, 45, 64, 80, 100, int(rng.integers(20, 161))]))
    x = pick(rng, [1.0, 1.0, 1e-6, 1e4]) * rnd(rng, 0.01, 10) * np.arange(n) / n + pick(rng, [0.0, 0.0, rnd(rng, -2, 2)])
    return n, x


def recover(case):
    rng = case.rng
    n, x = grid(rng)
    T = Data1D(name="time", unit=pick(rng, ["s", "ms"]), values=x.copy())
    M, Tu, how = subset(case, n, T, x)
    keys, D = atoms(n)
    na = int(pick(rng, [1, 1, 2, 2, 3, 4, 5]))
    ns = int(pick(rng, [0, 0, 1, 2, 3, 6]))
    kinds = pick(rng, [["cos"], ["sin"], ["cos", "sin"]])
    pool = [j for j, k in enumerate(keys) if k[0] in kinds]
    for _ in range(20):
        true = sorted(int(j) for j in rng.choice(pool, na, replace=False))
        if chance(rng, 0.15):
            # first and last atoms of each kind
            true = sorted(set(true[1:]) | {pick(rng, [j for j in (0, n - 1, n, len(keys) - 1) if j in pool])})
            na = len(true)
        coef = rng.choice([-1, 1], (na, max(1, ns))) * 10 ** rng.uniform(-0.7, 0.7, (na, max(1, ns)))
        coef *= pick(rng, [1.0, 1e-3, 1e4])
        Y = D[:, true] @ coef
        if len(M) >= 3 * na + 3 and all(recoverable(D, M, Y[M, s], true) for s in range(Y.shape[1])):
            break
    else:
        case.run.count("not recoverable")
        return
    case.log("atoms", [keys[j] for j in true], "coefs", coef.tolist(), "n", n, "kept", len(M), "signals", ns)
    size = np.max(np.abs(Y))
    tol = 1e-7 * size
    nc = pick(rng, [na, na, na + 2, min(len(M) - 1, 2 * na + 3)])
    kw = {"n_coefs": nc}
    if chance(rng, 0.3):
        kw["precompute"] = bool(rng.integers(2))
    if na <= int(0.1 * len(M)) and chance(rng, 0.2):
        kw.pop("n_coefs")
    cls = pick(rng, [DataTime, DataND])
    if ns == 0:
        axes, vals = [Tu], Y[M, 0]
        full = Y[:, 0]
    else:
        A = Data1D(name="angle", unit="rad", values=np.linspace(0, 1, ns, endpoint=False))
        axes, vals, full = [Tu, A], Y[M], Y
        if chance(rng, 0.4):
            axes, vals, full = [A, Tu], Y[M].T, Y.T
    before = vals.copy()
    U = case.lib(cls, name="field", symbol="X", unit="T", axes=axes, values=vals.copy())
    R = case.lib(U.orthogonal_mp, T, **kw)
    case.true(type(R) is cls, "class of the result", got=type(R).__name__)
    case.true((R.name, R.symbol, R.unit) == ("field", "X", "T"), "name, symbol and unit", got=(R.name, R.symbol, R.unit))
    order = [a.name for a in axes]
    case.true([a.name for a in R.axes] == order, "axes of the result", got=[a.name for a in R.axes], expected=order)
    # read as a user does: by axis names
    q = shuffled(rng, order)
    g = case.lib(R.get_along, *q, is_squeeze=False)
    case.exact(g["time"], x, "the result covers the full time axis")
    case.eq(np.reshape(g["X"], np.shape(full)), full, "recovered signals", rtol=0, atol=tol)
    if ns:
        case.exact(g["angle"], axes[order.index("angle")].values, "second axis")
    got = np.asarray(R.values).reshape(np.shape(full))
    it = order.index("time")
    case.eq(np.take(got, M, axis=it), np.take(full, M, axis=it), "observed samples are kept", rtol=0, atol=tol)
    # the undersampled object is only read
    case.exact(U.values.reshape(before.shape), before, "undersampled values unchanged")
    case.exact(T.values, x, "time axis unchanged")
    # each signal alone
    if ns > 1:
        s = int(rng.integers(ns))
        V = cls(name="field", symbol="X", unit="T", axes=[Tu], values=Y[M, s].copy())
        one = case.lib(V.orthogonal_mp, T, **kw)
        case.eq(np.ravel(one.values), Y[:, s], "one of the signals alone", rtol=0, atol=tol)
    # function on arrays
    arr = case.lib(omp, Y[M] if ns else Y[M, 0], M, n, **kw)
    case.eq(np.reshape(arr, Y.shape if ns else (n,)), Y if ns else Y[:, 0], "recovered arrays", rtol=0, atol=tol)
    case.sig(na, ns, how, "+".join(kinds), order[0])


def indices(case):
    rng = case.rng
    n = int(rng.integers(2, 400))
    x = np.cumsum(rng.random(n) + 1e-3) if chance(rng, 0.4) else np.linspace(0, rnd(rng, 0.1, 10), n, endpoint=chance(rng, 0.5))
    x = pick(rng, [1.0, 1.0, 1e-7, 1e-10, 1e5]) * x + pick(rng, [0.0, 0.0, 1.0])
    if len(np.unique(x)) < n:
        return
    T = Data1D(name=pick(rng, ["time", "angle", "z"]), unit=pick(rng, ["s", "rad", "m"]), values=x.copy())
    K = pick(rng, [0.0, 1.0, 0.5, 1 / 3, rnd(rng, 0, 1), rnd(rng, 0, 1), rnd(rng, 0, 1)])
    seed = int(rng.integers(0, 2**31 - 1))
    kw = {} if chance(rng, 0.2) else {"seed": seed}
    case.log(n, K, kw)
    M, Tu = case.lib(comp_undersampling, K, T, **kw)
    helper(case, n, T, x, K, M, Tu)
    case.exact(case.lib(comp_undersampled_axe, T, Tu), M, "indices found back from the axes")
    case.exact(T.values, x, "axis unchanged")
    # same seed, same choice, whatever happened in between
    if chance(rng, 0.5):
        np.random.seed(int(rng.integers(100)))
        np.random.random(3)
    M2, Tu2 = case.lib(comp_undersampling, K, T, **kw)
    case.exact(M2, M, "same seed, same indices")
    case.exact(Tu2.values, Tu.values, "same seed, same axis")
    if kw and n > 40 and 0.2 < K < 0.8:
        # not the same choice for every seed
        others = [tuple(case.lib(comp_undersampling, K, T, seed=seed + i)[0]) for i in (1, 2)]
        case.true(any(o != tuple(M) for o in others), "the seed matters", got=M)
        case.true(any(o != tuple(range(len(M))) for o in others), "the choice is random", got=M)
    for bad in (-0.1, 1.5):
        case.raises("ratio %s" % bad, comp_undersampling, bad, T)
    # any subset of the samples is found back
    S = np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
    case.exact(comp_undersampled_axe(T, Data1D(name=T.name, unit=T.unit, values=x[S])), S, "indices of any subset")
    case.sig(K in (0.0, 1.0), bool(kw))


def dictionary(case):
    """Own pair of dictionaries: decomposition on the kept samples, synthesis on the full grid"""
    rng = case.rng
    n, x = grid(rng)
    T = Data1D(name="time", unit="s", values=x.copy())
    M, Tu, how = subset(case, n, T, x)
    p = int(rng.integers(4, 30))
    D = rng.standard_normal((n, p))
    D /= np.linalg.norm(D, axis=0)
    na = int(rng.integers(1, 4))
    true = sorted(int(j) for j in rng.choice(p, na, replace=False))
    y = D[:, true] @ (rng.choice([-1, 1], na) * rnd(rng, 1, 2))
    if len(M) < 3 * na + 3 or not recoverable(D, M, y[M], true):
        case.run.count("not recoverable")
        return
    case.log("own dictionary", p, true, len(M))
    U = DataTime(name="field", symbol="X", unit="T", axes=[Tu], values=y[M].copy())
    R = case.lib(U.orthogonal_mp, T, n_coefs=na, dictionary=[D[M], D])
    case.eq(np.ravel(R.values), y, "recovered with an own dictionary", rtol=0, atol=1e-7 * np.max(np.abs(y)))
    case.sig("own", na)


SCENARIOS = [
    ("recover", recover, 500, 12000),
    ("indices", indices, 500, 12000),
    ("dictionary", dictionary, 200, 4500),
]
