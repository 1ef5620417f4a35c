"""C20: copies, dictionaries and files preserve objects"""
import copy
import json
import logging
import os
import shutil
import tempfile

import numpy as np

import SciDataTool as S
from SciDataTool.Functions.load import load, load_dict, load_list
from SciDataTool.Functions.save import save_data
from checks.common import shuffled
from mon.core import Violation
from mon.gen import any_field, chance, pick
from mon.objs import CLS, FUNCS, NORMS, SPEC, Obj, any_obj, axis, build, diff, read, scramble, simple, spoil, value, walk
from mon.ref import make_req

logging.disable(logging.CRITICAL)

RULE = (
    "random object of each of the 16 classes with random attributes (set, unset or left to their default, nested axes, "
    "normalizations and components), copied, turned into a dictionary and rebuilt (each handling of arrays), saved and "
    "loaded (file, folder, list, dictionary, pickle); contents compared attribute by attribute with the description the "
    "object was built from; everything reachable from the result is then changed in place and the original compared again; "
    "fields also answer the same requests; distinct = class x set attributes x way"
)

ARRAYS = ("array", "matrix", "field")


class Scratch(object):
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="verif-c20-")
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


def same(case, o, r, what):
    d = diff(o, r)
    case.true(d is None, "%s: %s" % (what, d))


def equal(case, a, b, what):
    """Equality as the library sees it"""
    case.true(case.lib(lambda: a == b) is True and case.lib(lambda: b == a) is True, "%s: equal to the original" % what)


def is_complex(r):
    return any(isinstance(p.attrs.get(a), np.ndarray) and p.attrs[a].dtype.kind == "c" for _, p, a in walk(r))


def sig(case, r, *more):
    case.sig(r.cls, tuple(sorted(a for a, v in r.attrs.items() if v is not None)), tuple(sorted(a for a, v in r.attrs.items() if v is None)), *more)


def build_case(case):
    rng = case.rng
    classes = list(SPEC)
    r = any_obj(rng, classes[case.index % len(classes)], unset=pick(rng, [0, 0.15, 0.5]), left=pick(rng, [0, 0.2, 0.6]))
    case.log(r)
    o = case.lib(build, r)
    same(case, o, r, "built object")
    return r, o


def independent(case, o, r, n, what):
    """Changing everything in the new object leaves the original alone"""
    case.lib(scramble, n)
    same(case, o, r, "original after changing %s" % what)


def copies(case):
    """Copies"""
    r, o = build_case(case)
    n = case.lib(o.copy)
    case.true(n is not o, "the copy is another object")
    same(case, n, r, "copy")
    equal(case, o, n, "copy")
    same(case, o, r, "original after copying")
    m = case.lib(n.copy)
    independent(case, o, r, n, "the copy")
    same(case, m, r, "copy of the copy after changing the copy")
    case.lib(scramble, o)
    same(case, m, r, "copy after changing the original")
    sig(case, r, "copy")


def dicts(case):
    """Dictionaries"""
    rng = case.rng
    r, o = build_case(case)
    mode = int(rng.integers(0, 3))
    kw = {"keep_function": True} if chance(rng, 0.3) else {}
    d = case.lib(o.as_dict, **(dict(kw, type_handle_ndarray=mode) if mode or chance(rng, 0.5) else kw))
    case.log("as_dict", mode, kw)
    case.true(type(d) is dict and d.get("__class__") == r.cls, "class name in the dictionary", got=d.get("__class__"))
    if mode == 0 and not is_complex(r) and not any(isinstance(x, np.int64) for p, q, a in walk(r) for x in [q.attrs.get(a)]):
        case.lib(json.dumps, d)
    n1 = case.lib(CLS[r.cls], init_dict=copy.deepcopy(d))
    same(case, n1, r, "object rebuilt from a dictionary")
    equal(case, o, n1, "object rebuilt from a dictionary")
    before = value(d)
    n2 = case.lib(CLS[r.cls], init_dict=d)
    same(case, n2, r, "object rebuilt from a dictionary")
    case.true(value(d) == before, "the dictionary given to rebuild an object is left unchanged")
    n3 = case.lib(CLS[r.cls], init_dict=d)
    same(case, n3, r, "object rebuilt again from the same dictionary")
    if mode < 2:
        case.lib(scramble, n2)
        same(case, o, r, "original after changing the rebuilt object")
        spoil(d)
        same(case, o, r, "original after changing the dictionary")
    same(case, n1, r, "object rebuilt from a copy of the dictionary")
    # dictionaries may be incomplete
    some = [a for a in r.attrs if chance(rng, 0.5)]
    if "values" in some or "axes" in some:
        some = sorted(set(some) | ({"axes", "values"} & set(r.attrs)))
    p = Obj(r.cls, **{a: r.attrs[a] for a in some})
    full = case.lib(lambda: build(r).as_dict())
    n4 = case.lib(CLS[r.cls], init_dict={a: full[a] for a in some})
    same(case, n4, p, "object rebuilt from an incomplete dictionary")
    sig(case, r, "dict", mode, bool(kw))


def files(case):
    """Files"""
    rng = case.rng
    r, o = build_case(case)
    cwd = os.getcwd()
    with Scratch() as tmp:
        how = pick(rng, ["json", "noext", "folder", "init", "pickle", "over", "here", "relative", "named"])
        case.log("save", how)
        path = os.path.join(tmp, pick(rng, ["data", "my data", "a.b", "Data", "v.json.old", "x.jsonl", "json", "a.json_b"]) + ("" if how == "noext" else ".json"))
        if how == "pickle":
            import cloudpickle

            path = os.path.join(tmp, "data.pkl")
            with open(path, "wb") as f:
                case.lib(cloudpickle.dump, o, f)
            n = case.lib(load, path)
        elif how in ("here", "relative"):
            # paths relative to the working directory
            name = os.path.basename(path)
            os.mkdir(os.path.join(tmp, "sub"))
            os.chdir(tmp)
            try:
                if how == "relative":
                    name = pick(rng, ["sub/", "./sub/", "sub/../sub/"]) + name
                case.lib(o.save, name)
                case.true(os.path.isfile(os.path.join(tmp, name)), "file written", got=os.listdir(tmp))
                n = case.lib(load, name)
                case.true(os.path.realpath(os.getcwd()) == os.path.realpath(tmp), "working directory kept", got=os.getcwd())
            finally:
                os.chdir(cwd)
        elif how == "named":
            # a folder stands for the file of the same name in it
            os.mkdir(os.path.join(tmp, "mine"))
            case.lib(o.save, os.path.join(tmp, "mine", "mine.json"))
            n = case.lib(load, os.path.join(tmp, "mine"))
        else:
            if how == "over":
                with open(path, "w") as f:
                    f.write("x" * 100000)
            case.lib(o.save, tmp if how == "folder" else path)
            real = os.path.join(tmp, r.cls + ".json") if how == "folder" else path + (".json" if how == "noext" else "")
            case.true(os.listdir(tmp) == [os.path.basename(real)], "one file written", got=os.listdir(tmp), expected=os.path.basename(real))
            n = case.lib(CLS[r.cls], init_str=real) if how == "init" else case.lib(load, real)
        case.true(os.getcwd() == cwd, "working directory kept", got=os.getcwd())
        same(case, o, r, "original after saving")
        same(case, n, r, "loaded object")
        equal(case, o, n, "loaded object")
        independent(case, o, r, n, "the loaded object")
    sig(case, r, "file", how)


def collections(case):
    """Lists and dictionaries of objects in a file; parts of an object given as files"""
    rng = case.rng
    rs = [any_obj(rng) for _ in range(int(rng.integers(1, 4)))]
    os_ = [case.lib(build, r) for r in rs]
    how = pick(rng, ["list", "dict", "nested", "axes", "components"])
    case.log(how, *rs)
    cwd = os.getcwd()
    with Scratch() as tmp:
        path = os.path.join(tmp, "all.json")
        if how == "list":
            case.lib(save_data, os_ + [3, "text", None], path)
            got = case.lib(load_list, path)
            case.true(isinstance(got, list) and got[-3:] == [3, "text", None], "plain items of a saved list", got=got[-3:])
            got = got[:-3]
        elif how == "dict":
            case.lib(save_data, {"k%d" % i: o for i, o in enumerate(os_)}, path)
            got = case.lib(load_dict, path)
            case.same(sorted(got), ["k%d" % i for i in range(len(rs))], "keys of a saved dictionary")
            got = [got["k%d" % i] for i in range(len(rs))]
        elif how == "nested":
            case.lib(save_data, [{"a": os_}, 1.5], path)
            got = case.lib(load_list, path)
            case.true(got[1] == 1.5 and list(got[0]) == ["a"], "nested structure", got=got)
            got = got[0]["a"]
        else:
            # the attribute can name the file of an object
            r = any_obj(rng, "VectorField" if how == "components" else "DataTime", unset=0, left=0)
            part = r.attrs["components" if how == "components" else "axes"]
            kw = {k: build(v) for k, v in r.attrs.items()}
            for k in range(len(part)) if isinstance(part, list) else list(part):
                if chance(rng, 0.6):
                    p = os.path.join(tmp, "part-%s.json" % k)
                    case.lib(build(part[k]).save, p)
                    kw["components" if how == "components" else "axes"][k] = p
            case.log(r)
            os_, rs = [case.lib(build, r)], [r]
            got = [case.lib(CLS[r.cls], **kw)]
        case.true(len(got) == len(rs), "number of objects", got=len(got))
        for n, o, r in zip(got, os_, rs):
            same(case, n, r, "loaded object")
            equal(case, o, n, "loaded object")
    case.true(os.getcwd() == cwd, "working directory kept", got=os.getcwd())
    case.sig(how, tuple(r.cls for r in rs))


def unreadable(case):
    """Files that do not hold an object"""
    rng = case.rng
    r = any_obj(rng, unset=0, left=0)
    o = case.lib(build, r)
    cwd = os.getcwd()
    how = pick(rng, ["missing", "text", "list", "noclass", "class", "part", "format"])
    case.log(how, r)
    with Scratch() as tmp:
        path = os.path.join(tmp, "data.json")
        if how == "format":
            path = os.path.join(tmp, "data.xls")
            with open(path, "w") as f:
                f.write("{}")
        elif how != "missing":
            case.lib(o.save, path)
            with open(path) as f:
                d = json.load(f)
            if how == "text":
                d = "{"
            elif how == "list":
                d = [d]
            elif how == "noclass":
                del d["__class__"]
            elif how == "class":
                d["__class__"] = "Nothing"
            else:
                d = {"__class__": "DataTime", "axes": [dict(d, __class__="Nothing")], "values": [1.0], "name": "n"}
            with open(path, "w") as f:
                f.write(d if how == "text" else json.dumps(d))
        try:
            case.raises("file: " + how, load, path)
            case.true(os.getcwd() == cwd, "working directory kept", got=os.getcwd())
        finally:
            os.chdir(cwd)
    case.sig(how, r.cls)


def attributes(case):
    """Each attribute of each class on its own, set or unset"""
    rng = case.rng
    pairs = [(c, a) for c in SPEC for a in SPEC[c]]
    cls, a = pairs[case.index // 2 % len(pairs)]
    full = any_obj(rng, cls, unset=0, left=0)
    if case.index % 2:
        r = full
        if a not in ("axes", "values") or cls not in ("DataND", "DataTime", "DataFreq", "DataDual"):
            r.attrs[a] = None
    else:
        both = ("axes", "values") if a in ("axes", "values") and "axes" in SPEC[cls] else (a,)
        r = Obj(cls, **{b: full.attrs[b] for b in both if b in full.attrs})
    case.log(r)
    o = case.lib(build, r)
    same(case, o, r, "built object")
    with Scratch() as tmp:
        path = os.path.join(tmp, "o.json")
        case.lib(o.save, path)
        made = {
            "copy": case.lib(o.copy),
            "dictionary": case.lib(lambda: CLS[cls](init_dict=o.as_dict())),
            "dictionary of arrays": case.lib(lambda: CLS[cls](init_dict=o.as_dict(type_handle_ndarray=1))),
            "file": case.lib(load, path),
        }
    for way, n in made.items():
        same(case, n, r, way)
        equal(case, o, n, way)
    for way, n in made.items():
        case.lib(scramble, n)
        same(case, o, r, "original after changing the %s" % way)
    case.sig(cls, a, case.index % 2)


def functions(case):
    """Functions which cannot be written as text"""
    rng = case.rng
    k = float(rng.integers(2, 9))
    r = Obj("Norm_func", function=lambda x: k * x + 1, unit=pick(rng, ["SI", "Hz"]))
    if chance(rng, 0.6):
        r = Obj("Data1D", values=np.arange(3.0), name="speed", normalizations={"f": r})
        if chance(rng, 0.5):
            r = Obj("DataTime", values=np.ones(3), axes=[r], symbol="B")
            if chance(rng, 0.5):
                r = Obj("VectorField", name="F", symbol="B", components={"radial": r})
    case.log(r)
    o = case.lib(build, r)
    n = case.lib(o.copy)
    same(case, n, r, "copy")
    equal(case, o, n, "copy")
    d = case.lib(o.as_dict, keep_function=True)
    n = case.lib(CLS[r.cls], init_dict=d)
    same(case, n, r, "object rebuilt from a dictionary keeping functions")
    # the function cannot be written: all the rest is
    d = case.lib(o.as_dict)
    lost = Obj(r.cls, **r.attrs)
    low = lost
    while low.cls != "Norm_func":
        a, key = {"VectorField": ("components", "radial"), "DataTime": ("axes", 0), "Data1D": ("normalizations", "f")}[low.cls]
        part = low.attrs[a][key]
        part = Obj(part.cls, **part.attrs)
        low.attrs = dict(low.attrs, **{a: [part] if key == 0 else {key: part}})
        low = part
    low.attrs = dict(low.attrs, function=None)
    same(case, case.lib(CLS[r.cls], init_dict=d), lost, "object rebuilt from a dictionary without functions")
    with Scratch() as tmp:
        case.lib(o.save, os.path.join(tmp, "o.json"))
        same(case, case.lib(load, os.path.join(tmp, "o.json")), lost, "object rebuilt from a file without functions")
    same(case, o, r, "original after writing")
    with Scratch() as tmp:
        # a function defined in a file
        path = os.path.join(tmp, "myfun%d.py" % int(k))
        with open(path, "w") as f:
            f.write("def myfun%d(x):\n    return %r * x - 2\n" % (int(k), k))
        o = case.lib(S.Norm_func, function=path)
        for n in (o, case.lib(o.copy), case.lib(lambda: S.Norm_func(init_dict=o.as_dict()))):
            case.eq(case.lib(n.normalize, np.array([1.0, 2.5])), k * np.array([1.0, 2.5]) - 2, "function of a file")
        equal(case, o, case.lib(o.copy), "copy")
    case.sig(r.cls, k)


def answers(case):
    """Same answers to requests"""
    rng = case.rng
    fld = any_field(rng, syms="any", kind=pick(rng, ["f", "f", "c", "i"]))
    D = case.lib(fld.build)
    case.log(fld)
    with Scratch() as tmp:
        path = os.path.join(tmp, "d.json")
        case.lib(D.save, path)
        made = {"copy": case.lib(D.copy), "dictionary": case.lib(lambda: type(D)(init_dict=D.as_dict())), "file": case.lib(load, path)}
    for _ in range(2):
        reqs = [make_req(rng, a, ["whole", "all", "idx", "list", "range"]) for a in fld.axes if chance(rng, 0.85)]
        args = shuffled(rng, [r.text for r in reqs]) or [fld.axes[0].name]
        ref = case.lib(D.get_along, *args)
        case.log(args)
        for way, n in made.items():
            got = case.lib(n.get_along, *args)
            case.same(sorted(got), sorted(ref), "content of the answer of the %s" % way)
            for k, v in ref.items():
                if isinstance(v, np.ndarray) or np.isscalar(v):
                    case.exact(got[k], v, "%s: %s" % (way, k))
                else:
                    case.true(value(got[k]) == value(v), "%s: %s" % (way, k), got=got[k], expected=v)
    case.sig(fld.cls(), tuple(sorted(r.kind for r in reqs)))


SCENARIOS = [
    ("copies", copies, 1400, 24000),
    ("dicts", dicts, 1400, 24000),
    ("files", files, 1200, 18000),
    ("collections", collections, 300, 6000),
    ("attributes", attributes, 2 * sum(len(v) for v in SPEC.values()), 10 * sum(len(v) for v in SPEC.values())),
    ("functions", functions, 60, 600),
    ("unreadable", unreadable, 100, 1800),
    ("answers", answers, 400, 7500),
]
