"""C21: equality and difference reports"""
import copy

import numpy as np

from checks.c20 import equal
from mon.gen import chance, pick
from mon.objs import AXES, CLS, FUNCS, NORMS, SPEC, Obj, any_obj, axis, build, canon, default, difference, norm, read, simple, value, walk

RULE = (
    "random object of each of the 16 classes, built twice from the same description, one attribute of one of the two (at any "
    "depth) then changed: value of each kind, unset, item of a list or dictionary, added, removed or renamed nested object, "
    "nested object of another class; equality in both directions and the difference report (with other names, shown values, "
    "ignored attributes) are compared with the change which was made; distinct = class x path of the change x kind of change"
)


def twins(case, cls=None):
    rng = case.rng
    classes = list(SPEC)
    r = any_obj(rng, cls or classes[case.index % len(classes)], unset=pick(rng, [0, 0.1, 0.4]), left=pick(rng, [0, 0.2]))
    return r, case.lib(build, r), case.lib(build, r)


def at(o, path):
    """Live object at a path such as self.axes[0].normalizations[ref]"""
    for step in path.split(".")[1:]:
        name, _, key = step.partition("[")
        o = getattr(o, name)
        if key:
            o = o[int(key[:-1])] if isinstance(o, list) else o[key[:-1]]
    return o


def bump(rng, v, kind, shaped):
    """Another value for an attribute, and the kind of change"""
    if kind in ("array", "matrix", "field") and isinstance(v, np.ndarray) and v.size:
        how = pick(rng, ["item", "item", "tiny", "last", "new"] if shaped else ["item", "tiny", "last", "new", "longer", "unset"])
        if how == "unset":
            return None, how
        if how == "longer":
            return np.concatenate([v, v[-1:]]), how
        w = v.copy()
        if w.dtype.kind == "U":
            w = w.astype("<U30")
            w.flat[int(rng.integers(v.size))] = "other"
        elif how == "new":
            w = w + 1
        elif how == "last":
            w.flat[-1] += 1
        else:
            i = int(rng.integers(v.size))
            w.flat[i] = np.nextafter(w.flat[i], 1e9) if how == "tiny" and w.dtype.kind == "f" else w.flat[i] + 1
        return w, how
    if kind == "field":
        return None, None
    if kind in ("ints", "strs") and v and chance(rng, 0.6):
        w = list(v)
        i = int(rng.integers(len(w)))
        how = pick(rng, ["item", "append", "remove", "swap"])
        if how == "item":
            w[i] = w[i] + (1 if kind == "ints" else "x")
        elif how == "append":
            w.append(w[0])
        elif how == "remove":
            del w[i]
        else:
            w = w[::-1]
        return w, how
    if kind in ("dict", "filter") and v and chance(rng, 0.6):
        w = copy.deepcopy(v)
        k = pick(rng, list(w))
        how = pick(rng, ["key", "add", "remove", "value"])
        if how == "key":
            w[k + "_"] = w.pop(k)
        elif how == "add":
            w["more"] = [1]
        elif how == "remove":
            del w[k]
        else:
            w[k] = ["other value"]
        return w, how
    if v is not None and chance(rng, 0.2) and kind != "field":
        return None, "unset"
    if kind == "bool":
        return (not v) if v is not None else chance(rng, 0.5), "flip"
    if kind == "float" and v is not None and chance(rng, 0.3):
        return float(np.nextafter(float(v), 1e99)), "tiny"
    if kind == "str" and v and chance(rng, 0.3):
        return pick(rng, [v + " ", v.upper(), v[:-1], v + "x"]), "edit"
    return simple(rng, kind), "set" if v is None else "other"


def report(case, A, B, path, exact=True):
    """The report of the differences between A and B names the path and nothing else"""
    rng = case.rng
    for x, y, way in ((A, B, "report"), (B, A, "reverse report")):
        case.true(case.lib(lambda: x == y) is False, "%s changed: objects are not equal" % path)
        case.true(case.lib(lambda: x != y) is True, "%s changed: objects are different" % path)
        got = case.lib(x.compare, y)
        if exact:
            case.same(got, [path], way)
        else:
            case.true(isinstance(got, list) and len(got) == 1 and named(got[0], path), "%s names %s" % (way, path), got=got)
        case.same(case.lib(x.compare, y, ignore_list=list(got)), [], "%s without the changed attribute" % way)
        case.same(case.lib(x.compare, y, ignore_list=["self.other", "self"]), got, "%s ignoring other attributes" % way)
        new = case.lib(x.compare, y, name="obj")
        case.same(new, [g.replace("self", "obj", 1) for g in got], "%s with a name" % way)
        val = case.lib(x.compare, y, is_add_value=True)
        case.true(len(val) == 1 and val[0].startswith(got[0]), "%s with the values" % way, got=val)
        case.same(case.lib(x.compare, y, is_add_value=True, ignore_list=list(got)), [], "%s with the values, without the changed attribute" % way)


def named(text, path):
    """An entry on a list or dictionary names the attribute of the right object"""
    head, _, attr = path.rpartition(".")
    return head in text and attr in text.replace(head, "", 1)


def attribute(case):
    """One attribute changed, at any depth"""
    rng = case.rng
    r, A, B = twins(case)
    case.log(r)
    equal(case, A, B, "object built twice")
    case.true(case.lib(lambda: A == A) is True and case.lib(lambda: A != A) is False, "an object is equal to itself")
    case.same(case.lib(A.compare, B), [], "difference report of equal objects")
    case.same(case.lib(A.compare, B, is_add_value=True), [], "difference report of equal objects")
    leaves = [(p, q, a) for p, q, a in walk(r) if SPEC[q.cls][a] not in ("axes", "norms", "comps")]
    if not leaves:
        case.nobs += 1
        return
    deep = [x for x in leaves if x[0].count(".") > 1]
    path, q, a = pick(rng, deep) if deep and chance(rng, 0.6) else pick(rng, leaves)
    kind = SPEC[q.cls][a]
    v = q.attrs[a] if a in q.attrs else default(q.cls, a)
    for _ in range(20):
        w, how = bump(rng, v, kind, kind == "field" or q is not r)
        w2 = eval(w) if kind == "function" and isinstance(w, str) else w
        v2 = eval(v) if kind == "function" and isinstance(v, str) else v
        if how is not None and value(w2) != value(v2):
            break
    else:
        return
    head = path.rpartition(".")[0]
    case.log("change", path, how, w)
    X, Y = (A, B) if chance(rng, 0.5) else (B, A)
    target = case.lib(at, Y, head)
    case.lib(setattr, target, a, copy.deepcopy(w))
    report(case, X, Y, path)
    # back to the same value
    case.lib(setattr, target, a, copy.deepcopy(v))
    equal(case, A, B, "%s set back" % path)
    case.same(case.lib(A.compare, B), [], "difference report after setting %s back" % path)
    case.sig(r.cls, path, how)


def nested(case):
    """Nested objects added, removed, renamed, of another class, unset"""
    rng = case.rng
    for _ in range(10):
        r, A, B = twins(case, pick(rng, ["Data1D", "DataLinspace", "DataPattern", "DataTime", "DataFreq", "DataND", "DataDual", "VectorField", "VectorField"]))
        spots = [(p, q, a) for p, q, a in walk(r) if SPEC[q.cls][a] in ("axes", "norms", "comps")]
        spots = [x for x in spots if x[1].attrs.get(x[2])] or spots
        if spots:
            break
    else:
        return
    path, q, a = pick(rng, spots)
    v = q.attrs[a] if a in q.attrs else default(q.cls, a)
    kind = SPEC[q.cls][a]
    head = path.rpartition(".")[0]
    hows = ["unset", "add"] + (["remove", "type"] + (["rename"] if isinstance(v, dict) else []) if v else []) if v is not None else ["set"]
    how = pick(rng, hows)
    target = case.lib(at, B, head)
    fresh = {"axes": lambda: axis(rng, 2), "norms": lambda: norm(rng), "comps": lambda: any_obj(rng, "DataTime")}[kind]
    cur = getattr(target, a)
    exact = False
    if how == "unset":
        new = None
    elif how == "set":
        new = [case.lib(build, fresh())] if kind == "axes" else {"new": case.lib(build, fresh())}
    elif how == "add":
        new = cur + [case.lib(build, fresh())] if kind == "axes" else dict(cur, new=case.lib(build, fresh()))
    elif how == "remove":
        new = cur[:-1] if kind == "axes" else {k: x for k, x in list(cur.items())[1:]}
    elif how == "rename":
        k0 = pick(rng, list(cur))
        new = {("renamed" if k == k0 else k): x for k, x in cur.items()}
    else:
        k0 = int(rng.integers(len(v))) if kind == "axes" else pick(rng, list(v))
        old = v[k0].cls
        pool = [c for c in {"axes": AXES, "norms": NORMS, "comps": ["DataND", "DataTime", "DataFreq"]}[kind] if c != old]
        x = case.lib(CLS[pick(rng, pool)])
        new = list(cur) if kind == "axes" else dict(cur)
        new[k0] = x
        path = "type(%s[%s])" % (path, k0)
        exact = True
    case.log(r)
    case.log(how, path)
    case.lib(setattr, target, a, new)
    report(case, A, B, path, exact)
    case.sig(r.cls, path, how)


def unlike(case):
    """Objects of other classes and other things"""
    rng = case.rng
    a, b = any_obj(rng), any_obj(rng)
    if case.index % 3 == 0:
        # same attributes, another class
        a = any_obj(rng, pick(rng, ["DataND", "DataTime", "DataFreq"]))
        b = Obj(pick(rng, [c for c in ["DataND", "DataTime", "DataFreq"] if c != a.cls]), **a.attrs)
    A, B = case.lib(build, a), case.lib(build, b)
    case.log(a)
    case.log(b)
    if a.cls != b.cls:
        for x, y in ((A, B), (B, A)):
            case.true(case.lib(lambda: x == y) is False and case.lib(lambda: x != y) is True, "objects of different classes are not equal")
            case.same(case.lib(x.compare, y), ["type(self)"], "difference report of objects of different classes")
            case.same(case.lib(x.compare, y, name="o"), ["type(o)"], "difference report of objects of different classes")
    else:
        eq = canon(a) == canon(b)
        for x, y in ((A, B), (B, A)):
            case.true(case.lib(lambda: x == y) is eq, "equality of two objects", expected=eq)
            case.true((case.lib(x.compare, y) == []) is eq, "difference report of two objects", got=x.compare(y))
    for other in (None, 3, "text", [A], a):
        case.true(case.lib(lambda: A == other) is False and case.lib(lambda: A != other) is True, "not equal to something else", other=other)
        case.same(case.lib(A.compare, other), ["type(self)"], "difference report with something else")
    case.sig(a.cls, b.cls)


def several(case):
    """Several attributes changed: all of them are named, once"""
    rng = case.rng
    r, A, B = twins(case)
    leaves = [(p, q, a) for p, q, a in walk(r) if SPEC[q.cls][a] in ("str", "bool", "float", "int", "array", "dict", "ints")]
    if len(leaves) < 2:
        case.nobs += 1
        return
    case.log(r)
    changed = []
    for k in rng.permutation(len(leaves))[: int(rng.integers(2, 6))]:
        path, q, a = leaves[int(k)]
        v = q.attrs[a] if a in q.attrs else default(q.cls, a)
        w, how = bump(rng, v, SPEC[q.cls][a], q is not r)
        if how is None or value(w) == value(v):
            continue
        case.log("change", path, how, w)
        case.lib(setattr, case.lib(at, B, path.rpartition(".")[0]), a, w)
        changed.append(path)
    got = case.lib(A.compare, B)
    case.same(sorted(got), sorted(changed), "difference report")
    case.true(case.lib(lambda: A == B) is (not changed), "equality")
    keep = [p for p in changed if chance(rng, 0.5)]
    ign = [p for p in changed if p not in keep]
    case.same(sorted(case.lib(A.compare, B, ignore_list=ign)), sorted(keep), "difference report with ignored attributes")
    case.sig(r.cls, len(changed), len(keep))


def functions(case):
    """Functions which are not given as text"""
    rng = case.rng
    f, g = pick(rng, [(np.sin, np.cos), (lambda x: 2 * x, lambda x: 3 * x), (np.sin, "lambda x: 2 * x"), (abs, None)])
    make = lambda h: Obj("Norm_func", function=h, unit="SI")
    path = "self.function"
    if chance(rng, 0.6):
        inner = make
        make = lambda h: Obj("Data1D", values=np.arange(3.0), name="speed", normalizations={"f": inner(h)})
        path = "self.normalizations[f].function"
    A, B = (case.lib(CLS[make(f).cls], **{k: build(v) if k != "function" else v for k, v in make(h).attrs.items()}) for h in (f, g))
    A2 = case.lib(CLS[make(f).cls], **{k: build(v) if k != "function" else v for k, v in make(f).attrs.items()})
    case.log(path, f, g)
    equal(case, A, A2, "same function")
    equal(case, A, case.lib(A.copy), "copy")
    case.same(case.lib(A.compare, A2), [], "difference report with the same function")
    report(case, A, B, path)
    case.sig(path, str(f)[:20], str(g)[:20])


SCENARIOS = [
    ("functions", functions, 40, 600),
    ("attribute", attribute, 3000, 60000),
    ("nested", nested, 1000, 18000),
    ("several", several, 600, 9000),
    ("unlike", unlike, 300, 4500),
]
