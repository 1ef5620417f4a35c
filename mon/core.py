"""Verdict machinery shared by all monitors.

A check is a list of scenarios; a scenario is run on many generated cases. Every
case drives the real library and reports what it observed through a Case object.
Verdicts are three-valued: an oracle evaluation holds, is violated, or the case
was not decisive (nothing observed). A scenario which never got a decisive
observation makes the whole run inconclusive (exit 2), never "held".
"""
import contextlib
import io
import json
import os
import sys
import time
import traceback
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")


class Violation(Exception):
    """The property does not hold on the case being run"""


class HarnessError(Exception):
    """The check itself is broken"""


def _short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    s = " ".join(s.split())
    return s if len(s) <= n else s[: n - 3] + "..."


class Known(object):
    """Entries of the committed known-findings file (read only)"""

    def __init__(self, pid):
        self.entries = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN, encoding="utf-8"):
                line = line.strip()
                if line.startswith("finding: property=" + pid + " "):
                    key, _, text = line.split(" ", 2)[2].partition(" ")
                    assert key.startswith("key="), line
                    self.entries[key[4:]] = text
        self.seen = {}


class Case(object):
    def __init__(self, run, scenario, index):
        self.run = run
        self.scenario = scenario
        self.index = index
        ss = np.random.SeedSequence(
            [run.seed, zlib.crc32(run.pid.encode()), zlib.crc32(scenario.encode()), index]
        )
        self.rng = np.random.default_rng(ss)
        self.trail = []
        self.nobs = 0
        self.signature = None

    # --- description of what is being done (goes in the replay file)
    def log(self, *items):
        self.trail.append(" ".join(_short(i) for i in items))

    def sig(self, *items):
        """Class of this case: used to count distinct non-trivial cases"""
        self.signature = self.scenario + "|" + "|".join(str(i) for i in items)

    # --- running library code
    def lib(self, fn, *args, **kwargs):
        """Calls library code which has to succeed"""
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as err:
            tb = traceback.extract_tb(err.__traceback__)
            where = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]]
            raise Violation(
                "request failed with %s: %s (at %s)"
                % (type(err).__name__, _short(str(err)), " < ".join(where[::-1]))
            )

    def raises(self, what, fn, *args, **kwargs):
        """Calls library code which has to raise an exception"""
        exc = kwargs.pop("exc", Exception)
        self.nobs += 1
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except exc as err:
            return err
        except Exception as err:
            raise Violation(
                "%s: expected %s, got %s: %s"
                % (what, getattr(exc, "__name__", exc), type(err).__name__, _short(str(err)))
            )
        raise Violation("%s: no error was raised, returned %s" % (what, _short(res)))

    # --- oracle evaluations
    def fail(self, what, **detail):
        self.nobs += 1
        raise Violation(
            what + "".join("; %s=%s" % (k, _short(v, 600)) for k, v in detail.items())
        )

    def true(self, cond, what, **detail):
        self.nobs += 1
        if not cond:
            self.fail(what, **detail)

    def same(self, got, exp, what):
        self.nobs += 1
        ok = type(got) == type(exp) and got == exp
        if not ok:
            self.fail(what, got=got, expected=exp)

    def eq(self, got, exp, what, rtol=1e-9, atol=None, shape=True):
        """got equals exp as arrays (NaN equal NaN), with a tolerance scaled on exp"""
        self.nobs += 1
        try:
            g = np.asarray(got)
        except Exception as err:
            self.fail(what + ": not an array", got=got, error=err)
        e = np.asarray(exp)
        if g.dtype == object or e.dtype.kind in "US" or g.dtype.kind in "US":
            if g.shape != e.shape or g.tolist() != e.tolist():
                self.fail(what, got=got, expected=exp)
            return
        if shape and g.shape != e.shape:
            self.fail(what + ": shape", got_shape=g.shape, expected_shape=e.shape, got=g, expected=e)
        if not shape and g.size != e.size:
            self.fail(what + ": size", got_shape=g.shape, expected_shape=e.shape)
        if not shape:
            g = g.reshape(e.shape)
        if e.size == 0:
            return
        fin = np.isfinite(e)
        scale = np.max(np.abs(e[fin])) if fin.any() else 0.0
        tol = (rtol * scale + 1e-300) if atol is None else atol + rtol * scale
        bad_nan = np.isnan(g) != np.isnan(e)
        with np.errstate(all="ignore"):
            diff = np.abs(g - e)
            bad = (diff > tol) & fin
            bad |= ~fin & ~np.isnan(e) & (g != e)
            bad |= fin & ~np.isfinite(g)
        bad |= bad_nan
        if bad.any():
            i = np.unravel_index(np.argmax(bad), bad.shape) if bad.ndim else ()
            self.fail(
                what,
                n_bad="%d/%d" % (bad.sum(), bad.size),
                at=tuple(int(k) for k in i),
                got_there=g[i],
                expected_there=e[i],
                got=g,
                expected=e,
            )

    def exact(self, got, exp, what):
        self.eq(got, exp, what, rtol=0.0, atol=0.0)

    def known(self, key, what):
        """Records an occurrence of a finding of the committed file; a violation otherwise"""
        self.nobs += 1
        kn = self.run.known
        if key in kn.entries:
            kn.seen[key] = kn.seen.get(key, 0) + 1
        else:
            raise Violation(what)


class Run(object):
    def __init__(self, pid, tier, seed, budget):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.budget = budget
        self.known = Known(pid)
        self.t0 = time.time()
        self.cases = 0
        self.observations = 0
        self.sigs = {}
        self.samples = []
        self.per = {}
        self.violations = []
        self.counters = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def one(self, scenario, fn, index):
        case = Case(self, scenario, index)
        try:
            fn(case)
        except Violation as err:
            return case, str(err)
        except (MemoryError, KeyboardInterrupt, HarnessError):
            raise
        except Exception as err:
            # The oracle could not even read what the library returned
            tb = traceback.format_exc(limit=-4)
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return case, "unreadable result: %s: %s [%s]" % (
                type(err).__name__,
                _short(str(err)),
                _short(tb, 700),
            )
        return case, None

    def replay_file(self, case, message):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(
            d, "%s-%s-%d-s%d.json" % (self.pid, case.scenario, case.index, self.seed)
        )
        with open(path, "w", encoding="utf-8") as f:
            json.dump(
                {
                    "property": self.pid,
                    "tier": self.tier,
                    "seed": self.seed,
                    "scenario": case.scenario,
                    "index": case.index,
                    "message": message,
                    "steps": case.trail,
                    "how": "python run.py %s --replay %s" % (self.pid, path),
                },
                f,
                indent=1,
                ensure_ascii=False,
            )
        return path

    def scenario(self, name, fn, n):
        # a scenario may only use its share of the time budget
        t0 = time.time()
        done = 0
        obs = 0
        sigs = set()
        nviol = 0
        for index in range(n):
            if time.time() - self.t0 > self.budget:
                break
            case, msg = self.one(name, fn, index)
            done += 1
            self.cases += 1
            obs += case.nobs
            if case.signature is not None and case.nobs > 0:
                sigs.add(case.signature)
            if msg is not None:
                nviol += 1
                path = self.replay_file(case, msg)
                self.violations.append((name, index, msg, path))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  scenario %s case %d: %s" % (name, index, _short(msg, 1500)))
                for t in case.trail[-12:]:
                    print("    | " + _short(t, 600))
                sys.stdout.flush()
                if nviol >= 3 or len(self.violations) >= 6:
                    break
            elif (index in (0, n // 2)) and case.nobs > 0 and len(self.samples) < 40:
                self.samples.append(
                    {
                        "scenario": name,
                        "index": index,
                        "steps": case.trail[:6],
                        "oracle_evaluations": case.nobs,
                    }
                )
        for s in sigs:
            self.sigs[s] = 1
        self.observations += obs
        self.per[name] = {
            "planned": n,
            "cases": done,
            "oracle_evaluations": obs,
            "classes": len(sigs),
            "wall_s": round(time.time() - t0, 2),
        }

    def evidence(self, rule, assumptions):
        os.makedirs(EVID, exist_ok=True)
        out = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.cases,
                "distinct_nontrivial": len(self.sigs),
                "rule": rule,
                "samples": self.samples[:12],
                "oracle_evaluations": self.observations,
                "scenarios": self.per,
                "monitor_counters": self.counters,
                "known_findings_seen": self.known.seen,
            },
            "assumptions": assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        tmp = os.path.join(EVID, self.pid + ".json.tmp")
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(out, f, indent=1, ensure_ascii=False, default=str)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        return out


def run_check(module, pid, tier, seed, replay=None, only=None, scale=1.0):
    budget = getattr(module, "BUDGET", {}).get(tier, 240 if tier == "quick" else 800)
    run = Run(pid, tier, seed, budget)
    scen = module.SCENARIOS
    if replay:
        data = json.load(open(replay, encoding="utf-8"))
        run.seed = data["seed"]
        run.tier = data["tier"]
        fn = [s[1] for s in scen if s[0] == data["scenario"]][0]
        case, msg = run.one(data["scenario"], fn, data["index"])
        for t in case.trail:
            print("    | " + t)
        if msg is None:
            print("not reproduced: the case now holds (%d observations)" % case.nobs)
            return 0
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        print("  " + msg)
        return 1
    for name, fn, nq, nt in scen:
        if only and name not in only:
            continue
        run.scenario(name, fn, max(1, int((nq if tier == "quick" else nt) * scale)))
        if len(run.violations) >= 6:
            break
    for key, n in run.known.seen.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, run.known.entries[key]))
    ev = run.evidence(module.RULE, getattr(module, "ASSUMPTIONS", []))
    print(
        "%s %s seed=%d: %d cases, %d oracle evaluations, %d distinct classes, %.1f s"
        % (pid, tier, seed, run.cases, run.observations, len(run.sigs), ev["wall_s"])
    )
    if run.violations:
        return 1
    empty = [k for k, v in run.per.items() if v["oracle_evaluations"] == 0 or v["cases"] == 0]
    if empty:
        print("INCONCLUSIVE: nothing observed in scenarios %s" % empty)
        return 2
    return 0
