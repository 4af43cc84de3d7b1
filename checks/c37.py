"""C37: every process gets the same results, with only what it uses installed."""
import datetime as dt, os, pickle, shutil, subprocess, sys, tempfile
import numpy as np, barotropic as bt
from lib.gen import *
from lib.core import Inconclusive
from lib import fresh
from checks.c13 import Env, FIELDS, PLOTS, same
from checks.c33 import _par

TECHNIQUE = "runtime monitoring: the same operations observed in fresh processes with packages missing, other interpreter options, environments, threads and forks; results compared with those of an ordinary process, settings of the process compared around the import"
RULE = "a case is an environment, a sequence of operations and a set of processes (missing packages, options, environment variables, place); the results of every process are compared with those of the ordinary one"
SRC = os.path.dirname(os.path.dirname(os.path.abspath(bt.__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(fresh.__file__)))

OPTIONAL = ["matplotlib", "pywt", "falwa", "xarray"]
# what an operation cannot do without (a plot may need more than matplotlib)
NEEDS = {"wavelet": ["pywt"], "as_dataset": ["xarray"], "list as_dataset": ["xarray"], "from_dataset": ["xarray"], "hn2016": ["falwa"], "hn2016 back": ["falwa"],
         "plot rwp": ["matplotlib", "pywt"], "plot rwp options": ["matplotlib", "pywt"]}
NEEDS.update({k: ["matplotlib"] for k in PLOTS if k not in NEEDS})
# falwa has dependencies of its own
UNDECIDED = {"hn2016": {"xarray", "matplotlib", "pywt"}, "hn2016 back": {"xarray", "matplotlib", "pywt"}}
PUBLIC = ["BarotropicModel", "DAY", "Grid", "HOUR", "MERIDIONAL", "MIN", "State", "StateList", "WEEK", "ZONAL", "diagnostics", "init", "io", "plot", "rhs"]


def _configuration(c, kind):
    """Missing packages, interpreter options, environment and place of one process."""
    rng = c.rng
    cfg = {"missing": [], "options": [], "env": {}, "where": "main", "cwd": "scratch", "std": "pipe"}
    if kind == "missing" or rng.random() < .3:
        cfg["missing"] = [p for p in OPTIONAL if rng.random() < pick(rng, [.3, .6])] or [pick(rng, OPTIONAL)]
        if rng.random() < .2:
            cfg["missing"] = list(OPTIONAL)
    if kind == "options" or rng.random() < .3:
        cfg["options"] = pick(rng, [["-O"], ["-OO"], ["-X", "dev"], ["-b"], ["-bb"], ["-X", "utf8=0"], ["-P"], ["-s", "-E"], ["-X", "int_max_str_digits=640"], ["-u"]])
    if kind == "environment" or rng.random() < .3:
        for _ in range(2):
            k, v = pick(rng, [("PYTHONHASHSEED", "random"), ("PYTHONHASHSEED", "17"), ("TZ", "America/St_Johns"), ("TZ", "Asia/Kathmandu"), ("LC_ALL", "C"), ("LC_ALL", "POSIX"), ("LANG", "tr_TR.UTF-8"),
                             ("OMP_NUM_THREADS", "3"), ("OPENBLAS_NUM_THREADS", "2"), ("MPLBACKEND", "svg"), ("MPLBACKEND", "pdf"), ("HOME", "/nonexistent"), ("COLUMNS", "20"), ("PYTHONIOENCODING", "ascii"), ("NO_COLOR", "1")])
            cfg["env"][k] = v
    if kind == "place" or rng.random() < .3:
        cfg["where"] = pick(rng, ["main", "thread", "fork", "all in a thread"])
        cfg["cwd"] = pick(rng, ["scratch", "removed", "unreadable"])
        cfg["std"] = pick(rng, ["pipe", "closed"])
    return cfg


def _start(folder, k, cfg, job):
    base = os.path.join(folder, str(k))
    cwd = os.path.join(base, "cwd")
    os.makedirs(cwd)
    with open(base + ".job", "wb") as f:
        pickle.dump({**job, "missing": cfg["missing"], "where": cfg["where"]}, f)
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TZ", "MPLCONFIGDIR", "MPLBACKEND", "PYTHONDONTWRITEBYTECODE", "OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS")}
    env.update({"TMPDIR": folder, **cfg["env"]})
    argv = [sys.executable, "-B", *cfg["options"], os.path.join(HERE, "lib", "fresh.py"), HERE, SRC, base + ".job", base + ".out"]
    enter = {"scratch": "", "removed": "rmdir .; ", "unreadable": "chmod 0 .; "}[cfg["cwd"]]
    leave = {"pipe": "", "closed": "exec <&- >&- 2>&-; "}[cfg["std"]]
    p = subprocess.Popen(["/bin/sh", "-c", f'{enter}{leave}exec "$@"', "sh", *argv], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=open(base + ".stdout", "wb"), stderr=open(base + ".stderr", "wb"))
    return p, base


def _finish(p, base):
    try:
        p.wait(150)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
        raise Inconclusive("a process did not end")
    if p.returncode < 0 and -p.returncode == 9:
        raise Inconclusive("a process was killed")
    out = None
    if os.path.exists(base + ".out"):
        with open(base + ".out", "rb") as f:
            out = pickle.load(f)
    read = lambda x: open(base + x, errors="replace").read()
    return p.returncode, out, read(".stdout"), read(".stderr")


def _pictures(c, got, want, msg):
    a, b = got["picture"], want["picture"]
    if c.equal(a.shape, b.shape, f"{msg}: size of the picture"):
        share = float(np.mean(np.any(a != b, axis=-1)))
        c.check(share < .01, f"{msg}: {share:.1%} of the pixels of the picture differ")
        c.event("pictures compared")


def _processes(c, kind, n):
    seed, par = _par(c)
    table = fresh.ops()
    names = sorted(table)
    special = sorted(NEEDS)
    ops = [pick(c.rng, names) for _ in range(14)] + ["field " + pick(c.rng, FIELDS) for _ in range(5)]
    ops += [pick(c.rng, special) for _ in range(4)] + [pick(c.rng, names) for _ in range(4)]
    ops = [ops[i] for i in c.rng.permutation(len(ops))]
    cfgs = [_configuration(c, kind) for _ in range(n)]
    c.note(kinds=kind, **{k: str(v) for k, v in par.items()}, ops=ops, processes=[str(x) for x in cfgs])
    e = Env(seed, par)
    ok, data = c.works(lambda: fresh.to_pickle(e), "pickling")
    job = {"seed": seed, "par": par, "ops": ops, "pickle": data if ok else None}
    folder = tempfile.mkdtemp(prefix="verif-c37-")
    try:
        procs = [_start(folder, k, cfg, job) for k, cfg in enumerate(cfgs)]
        ends = [_finish(*p) for p in procs]
    finally:
        for p, _ in locals().get("procs", []):
            if p.poll() is None:
                p.kill(); p.wait()
        for d in (os.path.join(folder, str(k), "cwd") for k in range(n)):
            if os.path.isdir(d):
                os.chmod(d, 0o700)
        shutil.rmtree(folder)
    want, pick_want = [], None
    twin = Env(seed, par)
    for name in ops: # the ordinary process
        good, x = fresh.outcome(lambda: table[name](twin))
        if not c.check(good, f"{name} after {ops[:len(want)]}: {x}"[:600]):
            return
        want.append(x)
    if ok:
        good, pick_want = fresh.outcome(lambda: fresh.unpickled(data, Env(seed, par)))
        if c.check(good, f"unpickled objects: {pick_want}"[:600]):
            for k in ("grids equal", "hashes equal", "found", "in the state"):
                c.check(pick_want[k] is True, f"unpickled grids: {k} is {pick_want[k]}")
        else:
            pick_want = None
    for cfg, (rc, out, said, err) in zip(cfgs, ends):
        who = f"process with {cfg}"
        if out is None:
            if "MemoryError" in err or "Cannot allocate" in err:
                raise Inconclusive(f"{who} ran out of memory")
            c.fail(f"{who} ended with {rc}: {err[-500:]}")
            continue
        facts = out["facts"]
        if not facts["file"].startswith(SRC):
            raise Inconclusive(f"{who} used {facts['file']}")
        missing = set(cfg["missing"])
        c.check(not facts["changed by the import"], f"{who}: the import changed {facts['changed by the import']}"[:500])
        c.equal(facts["said by the import"], "", f"{who}: standard output of the import")
        lost = [x for x in PUBLIC if x not in facts["public names"]]
        c.check(not lost, f"{who}: the package has no {lost}")
        c.equal(said, "", f"{who}: standard output")
        c.event("processes")
        for k in missing:
            c.event(f"processes without {k}")
        for k in cfg["options"][:1]:
            c.event("processes with interpreter options")
        if cfg["env"]:
            c.event("processes with another environment")
        c.event(f"place {cfg['where']}"); c.event(f"directory {cfg['cwd']}")
        if cfg["std"] == "closed":
            c.event("processes with closed streams")
        if not c.equal([o[0] for o in out["outcomes"]], ops, f"{who}: operations"):
            continue
        for (name, good, x), y in zip(out["outcomes"], want):
            msg = f"{name} in a {who}"
            if missing & set(NEEDS.get(name, [])):
                c.check(not good, f"{msg}: a result without the package it needs")
                c.event("operations refused without their package")
                continue
            if not good and missing & UNDECIDED.get(name, set()):
                continue
            if not c.check(good, f"{msg}: {x}"[:700]):
                continue
            if isinstance(y, dict) and "picture" in y:
                if "MPLBACKEND" not in cfg["env"]: # texts have other sizes there
                    _pictures(c, x, y, msg)
            else:
                same(c, x, y, msg, 1e-6)
            c.event("results compared")
            if missing:
                c.event("results compared with packages missing")
        if pick_want is not None and out["pickled"] is not None:
            good, x = out["pickled"]
            if c.check(good, f"unpickled objects in a {who}: {x}"[:700]):
                same(c, x, pick_want, f"unpickled objects in a {who}", 1e-6)
                c.event("objects of another process")


def missing(c):
    """Optional packages missing."""
    _processes(c, "missing", 4)


def options(c):
    """Interpreter options."""
    _processes(c, "options", 4)


def environment(c):
    """Environment variables."""
    _processes(c, "environment", 4)


def place(c):
    """Threads, forks, directories and streams."""
    _processes(c, "place", 4)


QUICK_SCALE = 2
THOROUGH_SCALE = 4
CASES = [(missing, 6, 60), (options, 3, 30), (environment, 4, 40), (place, 4, 40)]
REQUIRED_EVENTS = {"processes": 60, "results compared": 900, "results compared with packages missing": 300, "operations refused without their package": 40, "objects of another process": 50, "pictures compared": 30,
                   "processes without matplotlib": 8, "processes without pywt": 8, "processes without falwa": 8, "processes without xarray": 8, "processes with interpreter options": 16, "processes with another environment": 16, "place fork": 1, "place thread": 1, "processes with closed streams": 3}
