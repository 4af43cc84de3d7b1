"""Case runner, recorder and verdicts shared by all property checks."""
import argparse, collections, hashlib, importlib, json, math, os, signal, sys, time, traceback, zlib

import numpy as np

from .reach import Reach, summary as reach_summary

LEVEL = "exploration"
QUICK_LIMIT = 240       # soft limit in s after which no further cases are started (quick)
THOROUGH_LIMIT = 600    # the same for thorough
QUICK_SCALE = 16        # the checks list base counts of cases; a check can set its own factors
THOROUGH_SCALE = 10
WATCHDOG = 840          # hard limit: inconclusive
CASE_LIMIT = {"quick": 400, "thorough": 200}  # hard limit of one case: inconclusive
MAX_VIOLATIONS = 4


class Inconclusive(Exception):
    pass

class CaseTimeout(BaseException):
    pass

class Stop(Exception):
    """Ends a case early after an observation that makes the rest meaningless."""


def digest(x):
    """Content digest of (nested) data: arrays by dtype, shape and bytes."""
    h = hashlib.blake2b(digest_size=12)
    def feed(x):
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                h.update(b"O%r" % (x.shape,))
                for y in x.ravel():
                    feed(y)
            else:
                h.update(f"A{x.dtype.str}{x.shape}".encode())
                h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, dict):
            h.update(b"D")
            for k in sorted(x, key=repr):
                feed(k); feed(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b"L" if isinstance(x, list) else b"T")
            for y in x:
                feed(y)
        elif isinstance(x, (np.generic,)):
            h.update(f"G{x.dtype.str}".encode()); h.update(x.tobytes())
        else:
            h.update(repr(x).encode())
    feed(x)
    return h.hexdigest()


def _jsonable(x, depth=0):
    if isinstance(x, (bool, type(None), str, int)):
        return x
    if isinstance(x, (float, np.floating)):
        return float(x) if math.isfinite(x) else repr(float(x))
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (complex, np.complexfloating)):
        return repr(complex(x))
    if isinstance(x, np.ndarray):
        if x.size <= 24:
            return [_jsonable(y, depth + 1) for y in x.ravel().tolist()]
        return f"array{x.shape} {x.dtype} digest {digest(x)}"
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [_jsonable(y, depth + 1) for y in list(x)[:40]]
    return repr(x)[:200]


class Ctx:
    """What one case sees: its random generator and the recorder."""

    def __init__(self, runner, kind, index):
        self.runner = runner
        self.kind = kind
        self.index = index
        self.tier = runner.tier
        self.thorough = runner.tier == "thorough"
        self.rng = np.random.default_rng([runner.seed, zlib.crc32(runner.prop.encode()), zlib.crc32(kind.encode()), index])
        self.desc = {}
        self.evals = 0
        self.checks = 0
        self.failed = []

    # -- recording ---------------------------------------------------------

    def note(self, **kw):
        """Describes the case; the description is its identity for counting distinct cases."""
        self.desc.update(kw)

    def event(self, kind, n=1):
        self.runner.events[kind] += n

    # -- oracles -----------------------------------------------------------

    def fail(self, msg, key=None, **data):
        self.failed.append((msg, key, {k: _jsonable(v) for k, v in data.items()}))
        return False

    def check(self, ok, msg, key=None, **data):
        self.checks += 1
        if isinstance(ok, np.ndarray):
            ok = bool(ok.all())
        if not ok:
            self.fail(msg, key, **data)
            return False
        return True

    def equal(self, got, want, msg, key=None):
        return self.check(got == want, f"{msg}: got {got!r}, expected {want!r}"[:400], key)

    def close(self, got, want, msg, rtol=0., atol=0., scale=None, key=None, nonfinite=False):
        """|got - want| <= atol + rtol * scale, where scale is max|want| by default."""
        self.checks += 1
        try:
            got = np.asarray(got)
            want = np.asarray(want)
            if got.dtype == object or want.dtype == object:
                got = got.astype(float); want = want.astype(float)
        except Exception as e:
            return self.fail(f"{msg}: result is not numeric: {type(e).__name__} {e}", key)
        if got.shape != want.shape:
            return self.fail(f"{msg}: shape {got.shape}, expected {want.shape}", key)
        if got.size == 0:
            return True
        if nonfinite:
            same = (got == want) | (np.isnan(got) & np.isnan(want))
            fin = np.isfinite(got) & np.isfinite(want)
            if not (same | fin).all():
                return self.fail(f"{msg}: non-finite values differ", key, got=got, want=want)
            got, want = np.where(fin, got, 0), np.where(fin, want, 0)
        if not np.isfinite(got).all():
            return self.fail(f"{msg}: {np.count_nonzero(~np.isfinite(got))} non-finite values in the result", key)
        if scale is None:
            scale = np.max(np.abs(want))
        # complex arithmetic keeps the difference of integer/boolean/single types exact enough
        t = complex if (np.iscomplexobj(got) or np.iscomplexobj(want)) else float
        err = np.abs(got.astype(t) - want.astype(t))
        tol = atol + rtol * scale
        bad = ~(err <= tol)
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), err.shape)
            return self.fail(
                f"{msg}: differs by {err[i]:.6g} (tolerance {np.max(tol):.3g}) at index {tuple(int(j) for j in i)}: "
                f"got {got[i]}, expected {want[i]}; {np.count_nonzero(bad)}/{bad.size} points off", key)
        return True

    def raises(self, f, msg, exc=Exception, key=None):
        """The call must be refused with an exception."""
        self.checks += 1
        try:
            out = f()
        except exc:
            return True
        except CaseTimeout:
            raise
        except BaseException as e:
            return self.fail(f"{msg}: raised {type(e).__name__} ({e}), expected {exc}", key)
        return self.fail(f"{msg}: accepted, returned {out!r}"[:300], key)

    def works(self, f, msg, key=None):
        """The call must not raise; returns (ok, value)."""
        self.checks += 1
        try:
            return True, f()
        except CaseTimeout:
            raise
        except Exception as e:
            self.fail(f"{msg}: raised {type(e).__name__}: {e}"[:400], key)
            return False, None


def _is_environment_problem(e):
    return isinstance(e, (MemoryError, OSError, Inconclusive))


class Runner:

    def __init__(self, prop, tier, seed, here, repo):
        self.prop, self.tier, self.seed, self.here, self.repo = prop, tier, seed, here, repo
        self.events = collections.Counter()
        self.cases = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.sample_kinds = collections.Counter()
        self.violations = []
        self.known = []
        self.inconclusive = []
        self.evaluations = 0
        self.checks = 0
        self.trivial = 0

    def run_case(self, fn, index):
        c = Ctx(self, fn.__name__, index)
        c.note(kind=fn.__name__)
        def on_alarm(sig, frm):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(CASE_LIMIT[self.tier])
        try:
            fn(c)
        except Stop:
            pass
        except CaseTimeout:
            self.inconclusive.append(f"case {fn.__name__}[{index}] exceeded {CASE_LIMIT[self.tier]} s")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inlib = any("/barotropic/" in f.filename and self.here not in f.filename for f in tb)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
            if _is_environment_problem(e) and not inlib:
                self.inconclusive.append(f"case {fn.__name__}[{index}]: {type(e).__name__}: {e}")
            else:
                c.fail(f"{'the library raised' if inlib else 'the result could not be judged:'} "
                       f"{type(e).__name__}: {e} [{where}]"[:600])
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        self.evaluations += 1
        self.checks += c.checks
        self.cases[fn.__name__] += 1
        ident = json.dumps(_jsonable(c.desc), sort_keys=True)
        if c.checks > 0 and len(c.desc) > 1:
            self.distinct.add(hashlib.blake2b(ident.encode(), digest_size=8).hexdigest())
        else:
            self.trivial += 1
        if self.sample_kinds[fn.__name__] < 2 and len(self.samples) < 24:
            self.sample_kinds[fn.__name__] += 1
            self.samples.append({"case": f"{fn.__name__}[{index}]", "oracle_evaluations": c.checks, **_jsonable(c.desc)})
        for msg, key, data in c.failed[:3]:
            self.report(fn.__name__, index, msg, key, data, c.desc)
        return c

    def report(self, kind, index, msg, key, data, desc):
        for entry in load_known(self.here):
            if entry.get("status") == "known" and entry["property"] == self.prop and key is not None and entry.get("key") == key:
                self.known.append((entry, msg))
                return
        self.violations.append({"property": self.prop, "case": kind, "index": index, "seed": self.seed,
            "tier": self.tier, "message": msg, "data": data, "input": _jsonable(desc)})


def load_known(here):
    path = os.path.join(here, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def _worker(args):
    """Runs a slice of the cases in its own process."""
    prop, tier, seed, here, repo, part, parts, limit = args
    return _explore(prop, tier, seed, here, repo, part, parts, limit)


def _explore(prop, tier, seed, here, repo, part, parts, limit):
    t0 = time.monotonic()
    mod = importlib.import_module("checks." + prop.lower())
    r = Runner(prop, tier, seed, here, repo)
    reach = Reach(os.path.join(repo, "src", "barotropic"))
    reach.start()
    r.reach = reach.hits
    todo = []
    for fn, quick, thorough in mod.CASES:
        n = quick * getattr(mod, "QUICK_SCALE", QUICK_SCALE) if tier == "quick" else \
            thorough * getattr(mod, "THOROUGH_SCALE", THOROUGH_SCALE)
        todo.append((fn, n))
    # interleave the kinds, so that a time limit cuts all of them evenly
    order = sorted(((i + 0.5) / n, j, i) for j, (fn, n) in enumerate(todo) for i in range(n))
    ran_all = True
    for pos, (_, j, i) in enumerate(order):
        if pos % parts != part:
            continue
        if time.monotonic() - t0 > limit or len(r.violations) >= MAX_VIOLATIONS:
            ran_all = False
            break
        r.run_case(todo[j][0], i)
    r.ran_all = ran_all
    return r


def explore(prop, tier, seed, here, repo):
    import multiprocessing as mp
    parts = min(8, os.cpu_count() or 1)
    limit = QUICK_LIMIT if tier == "quick" else THOROUGH_LIMIT
    with mp.get_context("fork").Pool(parts) as pool:
        rs = pool.map(_worker, [(prop, tier, seed, here, repo, k, parts, limit) for k in range(parts)], chunksize=1)
    out = rs[0]
    for r in rs[1:]:
        out.events += r.events; out.cases += r.cases; out.distinct |= r.distinct
        out.violations += r.violations; out.known += r.known; out.inconclusive += r.inconclusive
        out.evaluations += r.evaluations; out.checks += r.checks; out.trivial += r.trivial
        out.ran_all = out.ran_all and r.ran_all
        out.reach |= r.reach
        if len(out.samples) < 24:
            out.samples += r.samples[:2]
    return out


def import_target(repo):
    """The code under test, from the working tree (and nothing else)."""
    src = os.path.join(repo, "src")
    import barotropic
    if not os.path.abspath(barotropic.__file__).startswith(os.path.join(src, "")):
        raise Inconclusive(f"barotropic was imported from {barotropic.__file__}, not from {src}")
    return barotropic


def run_property(prop, tier, seed, here, repo):
    t0 = time.monotonic()
    evidence = os.path.join(here, "evidence")
    os.makedirs(evidence, exist_ok=True)
    def timeout(signum, frame):
        print(f"INCONCLUSIVE property={prop} watchdog after {WATCHDOG} s", flush=True)
        os._exit(2)
    signal.signal(signal.SIGUSR1, timeout)
    import threading
    dog = threading.Timer(WATCHDOG, lambda: os.kill(os.getpid(), signal.SIGUSR1))
    dog.daemon = True
    dog.start()
    try:
        bt = import_target(repo)
        mod = importlib.import_module("checks." + prop.lower())
        r = explore(prop, tier, seed, here, repo)
    except Exception as e:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop} {type(e).__name__}: {e}")
        return 2
    finally:
        dog.cancel()
    # Monitors that must have seen something
    required = dict(getattr(mod, "REQUIRED_EVENTS", {}))
    for ev, n in required.items():
        if r.events[ev] < n and not r.violations and r.ran_all:
            r.inconclusive.append(f"monitor '{ev}' observed {r.events[ev]} events, needs {n}")
    if r.checks == 0:
        r.inconclusive.append("no oracle was evaluated")
    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL, "wall_s": round(wall, 2),
        "violations": len(r.violations),
        "coverage": {
            "evaluations": r.evaluations,
            "distinct_nontrivial": len(r.distinct),
            "rule": getattr(mod, "RULE", "seeded random cases per kind; non-trivial: at least one oracle was evaluated and the case has a description of its own"),
            "samples": r.samples,
            "oracle_evaluations": r.checks,
            "cases_by_kind": dict(sorted(r.cases.items())),
            "events_observed": dict(sorted(r.events.items())),
            "all_planned_cases_ran": r.ran_all,
            "code_reached_in_functions": {k: v for k, v in reach_summary(os.path.join(repo, "src", "barotropic"), r.reach).items() if v["lines_reached"]},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "executions of the code in /repo/src under CPython with the installed numpy, scipy, pyspharm (single precision), matplotlib, xarray and pywt",
            "nothing is claimed about inputs and histories that were not generated",
        ],
    }
    if r.known:
        ev["known_findings_seen"] = len(r.known)
    with open(os.path.join(evidence, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what in sorted({e["what"] for e, _ in r.known}):
        print(f"KNOWN-FINDING: property={prop} {what}")
    if r.violations:
        os.makedirs(os.path.join(evidence, "replay"), exist_ok=True)
        for v in r.violations[:MAX_VIOLATIONS]:
            path = os.path.join(evidence, "replay", f"{prop}-{v['case']}-{v['index']}-s{v['seed']}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"  {v['case']}[{v['index']}]: {v['message']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if r.inconclusive:
        for m in r.inconclusive[:10]:
            print(f"INCONCLUSIVE property={prop} {m}")
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} cases={r.evaluations} distinct={len(r.distinct)} "
          f"oracle_evaluations={r.checks} wall={wall:.1f}s")
    return 0


def replay(prop, path, here, repo):
    with open(path) as f:
        v = json.load(f)
    import_target(repo)
    mod = importlib.import_module("checks." + prop.lower())
    r = Runner(prop, v.get("tier", "quick"), v["seed"], here, repo)
    for fn, _, _ in mod.CASES:
        if fn.__name__ == v["case"]:
            r.run_case(fn, v["index"])
            break
    else:
        print(f"INCONCLUSIVE property={prop} unknown case {v['case']}")
        return 2
    for w in r.violations:
        print(f"  {w['case']}[{w['index']}]: {w['message']}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if r.violations else (2 if r.inconclusive else 0)


def selftest(repo):
    """Nothing has to be built: the package is pure Python. Check the tools and the reference against closed forms."""
    import scipy, matplotlib, xarray, pywt, spharm
    from .refsphere import RefSphere
    import_target(repo)
    ref = RefSphere(24, 2., .5)
    lat = np.deg2rad(np.linspace(90, -90, 13))[:, None]
    lon = np.deg2rad(np.arange(24) * 15.)[None, :]
    f = np.cos(lat) ** 3 * np.sin(lat) * np.cos(3 * lon + .3) # degree 4, order 3
    ok = np.allclose(ref.synth(ref.laplace(ref.analysis(f))), -20 / 4 * f, atol=1e-10)
    ok = ok and np.allclose(ref.synth(ref.c_fcor()), np.sin(lat) + 0 * lon, atol=1e-12)
    u, v = ref.wind(ref.analysis(2 * .1 * np.sin(lat) + 0 * lon))
    ok = ok and np.allclose(u, .1 * 2 * np.cos(lat), atol=1e-7) and np.allclose(v, 0, atol=1e-10)
    print("selftest", "ok" if ok else "FAILED", "numpy", np.__version__, "scipy", scipy.__version__)
    return 0 if ok else 2


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="the setup command: tools present, reference consistent")
    a = ap.parse_args(argv)
    if a.selftest:
        return selftest(repo)
    if a.all:
        import subprocess
        from concurrent.futures import ThreadPoolExecutor
        props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(here, "checks")) if f.startswith("c") and f.endswith(".py"))
        env = dict(os.environ); env.pop("VERIF_CHILD", None)
        def one(p):
            o = subprocess.run([sys.executable, os.path.join(here, "run.py"), p, "--tier", a.tier, "--seed", str(a.seed)],
                               capture_output=True, text=True, env=env)
            return p, o
        worst = 0
        with ThreadPoolExecutor(1 if a.tier == "thorough" else 6) as ex:
            for p, o in ex.map(one, props):
                print(f"[{o.returncode}] " + (o.stdout.strip() or o.stderr.strip()[-600:]), flush=True)
                worst = max(worst, o.returncode)
        return worst
    if a.replay:
        return replay(a.prop, a.replay, here, repo)
    return run_property(a.prop, a.tier, a.seed, here, repo)
