"""C33: threads may share objects."""
import datetime as dt, hashlib, os
import numpy as np, barotropic as bt
from lib.gen import *
from lib.core import Inconclusive
from lib.sched import Interleaver, free
from checks.c13 import Env, OPS as OPS13, FIELDS, same, states, grid_digest

TECHNIQUE = "runtime monitoring: seeded schedules of real threads (handovers at single opcodes of the code under test, and free preemption), results compared with those of each thread alone"
LEVEL_NOTE = "Held on every schedule observed (random, priority-based and free; counted in the evidence). CPython's interpreter lock is assumed; figures are not included (matplotlib's pyplot is not thread-safe); says nothing about schedules that did not occur."
RULE = "a case is a set of threads with calls on shared objects and a schedule (digest of its handovers); every result is compared with that of the same calls of one thread alone on objects of its own"
SRC = os.path.dirname(os.path.abspath(bt.__file__))

OPS = dict(OPS13)
OPS.update({
    "new grid": lambda e: {k: v for k, v in grid_digest(bt.Grid(360. / 18, rsphere=e.grid.rsphere, omega=e.grid.omega)).items()},
    "new terms": lambda e: [bt.rhs.LinearRelaxation(1e-5, e.refpv)(e.s), bt.rhs.GaussianMountain(500., (350., 40.), (20., 10.), wind=("zon", .5))(e.s),
                            bt.rhs.ZonalSineMountains(500., 30., 20., 3)(e.s)],
    "new list": lambda e: bt.StateList([e.s, e.s2]).map(lambda s: np.asarray(s.energy)),
    "spectral field": lambda e: [e.s.pv_spectral, e.s.pv_flux_spectral],
})
RACY = ["field " + f for f in FIELDS] + ["rhs orography", "rhs product", "rhs sum", "euler", "run", "euler bg", "list run", "stationary_wavenumber", "waveguides",
        "list attributes", "spectral field", "diffuse", "transform", "quad", "filters", "region", "add_wind state"]


def _par(c):
    par = dict(
        grid=dict(resolution=360. / pick(c.rng, [12, 16, 20]), rsphere=pick(c.rng, [EARTH_R, 1e5]), omega=pick(c.rng, [EARTH_W, 1e-4])),
        time=pick(c.rng, [0., dt.datetime(2020, 2, 28, 23, 30)]), dt=pick(c.rng, [600, 900.]), how=pick(c.rng, ["pv", "spectrum", "wind", "vorticity"]))
    if c.rng.random() < .3:
        par["grid"]["ntrunc"] = 6
    return int(c.rng.integers(2 ** 31)), par


def _policy(c):
    return pick(c.rng, [("random", .5), ("random", .1), ("random", .02), ("random", .004), ("priorities", 2), ("priorities", 5), ("priorities", 12)])


def _collect(c, outs, plans):
    """Results of the threads; a thread without an end is no answer."""
    got = []
    for k, (o, plan) in enumerate(zip(outs, plans)):
        if o is None:
            raise Inconclusive(f"thread {k} with {plan} did not end")
        ok, x = o
        if not c.check(ok, f"thread {k} with {plan} raised {type(x).__name__}: {x}"[:300] if not ok else ""):
            return None
        got.append(x)
    return got


def _run(c, jobs, how):
    if how == "free":
        outs = free(jobs)
        c.event("free runs")
        return outs
    il = Interleaver(SRC, int(c.rng.integers(2 ** 31)), how, opcodes=bool(c.rng.random() < .7))
    outs = il.run(jobs)
    c.note(policy=str(how), handovers=len(il.schedule), schedule=hashlib.blake2b(repr(il.schedule).encode(), digest_size=8).hexdigest())
    c.event("handovers", len(il.schedule)); c.event("events in the code under test", il.ticks)
    c.event("different places of handovers in a case", len({s[1:4] for s in il.schedule}))
    if len(il.schedule) > 1:
        c.event("schedules with overlapping calls")
    if il.steals:
        c.event("turns taken from blocked threads", il.steals)
    return outs


def _plans(c, n):
    kind = pick(c.rng, ["same", "fields", "racy", "any", "any", "repeat"])
    racy, any_ = RACY, sorted(OPS)
    if kind == "same":
        x = pick(c.rng, [pick(c.rng, racy), pick(c.rng, any_)])
        plans = [[x] for _ in range(n)]
    elif kind == "fields":
        plans = [["field " + pick(c.rng, FIELDS) for _ in range(int(c.rng.integers(1, 4)))] for _ in range(n)]
    elif kind == "racy":
        plans = [[pick(c.rng, racy) for _ in range(int(c.rng.integers(1, 4)))] for _ in range(n)]
    elif kind == "any":
        plans = [[pick(c.rng, any_) for _ in range(int(c.rng.integers(1, 4)))] for _ in range(n)]
    else:
        x = pick(c.rng, any_)
        plans = [[x, x] for _ in range(n)]
    c.note(plan_kind=kind)
    return plans


def _shared(c, n, how, plans):
    seed, par = _par(c)
    e = Env(seed, par)
    c.note(**{k: str(v) for k, v in par.items()}, plans=plans)
    before, g0 = e.inputs(), grid_digest(e.grid)
    jobs = [lambda plan=plan: [OPS[name](e) for name in plan] for plan in plans]
    got = _collect(c, _run(c, jobs, how), plans)
    if got is None:
        return
    alone = {}
    for k, plan in enumerate(plans):
        key = tuple(plan)
        if key not in alone:
            twin = Env(seed, par)
            alone[key] = [states(OPS[name](twin)) for name in plan]
        for name, a, b in zip(plan, got[k], alone[key]):
            same(c, states(a), b, f"{name} in thread {k} of {plans}", 1e-5)
            c.event("results compared with those of the thread alone")
    after = e.inputs()
    c.check(before == after, f"inputs modified: {[k for k in before if before[k] != after[k]]}")
    c.check(g0 == grid_digest(e.grid), "grid modified")
    twin = Env(seed, par)
    for f in [pick(c.rng, FIELDS) for _ in range(3)] + ["u", "v", "pv"]:
        same(c, getattr(e.s, f), getattr(twin.s, f), f"field {f} after {plans}", 1e-5)
    c.event("shared environments")


def shared(c):
    """Threads with calls on the same objects, scheduled."""
    n = int(c.rng.integers(2, 5))
    _shared(c, n, _policy(c), _plans(c, n))


def every_pair(c):
    """Every operation against itself and some other one."""
    names = sorted(OPS)
    a = names[c.index % len(names)]
    b = pick(c.rng, [a, pick(c.rng, names)])
    _shared(c, 2, pick(c.rng, [("random", .3), ("random", .05), ("priorities", 3), ("priorities", 8)]), [[a], [b]])


def shared_free(c):
    """Threads with calls on the same objects, preempted by the interpreter."""
    n = int(c.rng.integers(2, 9))
    _shared(c, n, "free", _plans(c, n))


class Recorder(bt.rhs.RHS):
    """A user's term with a log per state time, in the thread it is called in."""

    def __init__(self, rate):
        self.rate, self.logs = rate, {}

    def __call__(self, state):
        import threading
        self.logs.setdefault(threading.get_ident(), []).append((state.time, float(np.sum(np.abs(state.pv)))))
        return -self.rate * state.vorticity


def trajectories(c):
    """Every thread integrates states of its own (or the same state) with a shared model and terms."""
    n = int(c.rng.integers(2, 4))
    rng = c.rng
    ngrids = pick(rng, [1, 1, n, n])
    res = [pick(rng, [10, 12, 14, 16]) for _ in range(ngrids)]
    rs = [float(pick(rng, [EARTH_R, 3e6, 1e6])) for _ in range(ngrids)]
    oms = [float(pick(rng, [EARTH_W, 1e-4, 3e-5])) for _ in range(ngrids)]
    step = float(pick(rng, [300., 600.]))
    steps = [int(rng.integers(1, 4)) for _ in range(n)]
    which = [k % ngrids for k in range(n)]
    seeds = [int(rng.integers(2 ** 31)) for _ in range(n)] if rng.random() < .6 else [int(rng.integers(2 ** 31))] * n
    terms = sorted(rng.choice(["orography", "mountain", "sine", "recorder", "off"], int(rng.integers(1, 4)), replace=False).tolist())
    one_state = ngrids == 1 and len(set(seeds)) == 1 and rng.random() < .7
    coeff = float(pick(rng, [0., 1e-7]))
    save = pick(rng, [None, None, step])
    c.note(grids=res, steps=steps, terms=terms, one_state=one_state, save=save, coeff=coeff)

    def world_():
        grids = [bt.Grid(360. / r, rsphere=a, omega=o) for r, a, o in zip(res, rs, oms)]
        lon, lat = np.arange(0, 361., 30.), np.arange(90., -91., -30.)
        h = np.random.default_rng(3).normal(size=(7, 13)) * 300; h[:, -1] = h[:, 0]
        rec = Recorder(1e-5)
        made = {"orography": lambda: bt.rhs.Orography(lon, lat, h), "mountain": lambda: bt.rhs.GaussianMountain(400., (355., 40.), (30., 20.)),
                "sine": lambda: bt.rhs.ZonalSineMountains(300., 40., 25., 2), "recorder": lambda: rec,
                "off": lambda: bt.rhs.GaussianMountain(400., (90., -40.), (30., 20.), wind=("sbr", 10.)) * bt.rhs.TimedOffSwitch(1.5 * step)}
        rhs = sum((made[t]() for t in terms[1:]), made[terms[0]]())
        model = bt.BarotropicModel(rhs, diffusion_order=2, diffusion_coeff=coeff * min(rs) ** 4)
        first = []
        for k in range(n):
            g = grids[which[k]]
            f = np.random.default_rng(seeds[k])
            vo = 1e-5 * np.cos(g.phi2) ** 2 * sum(f.normal() * np.cos(m * g.lam2 + f.uniform(0, 6)) for m in range(3))
            first.append(bt.State.from_vorticity(g, 0., vo))
        if one_state:
            first = [first[0]] * n
        return rec, model, first

    def go(model, s, k):
        if save is None:
            last, _ = model.run(s, step, steps[k] * step)
            return last.time, np.asarray(last.pv)
        last, saved = model.run(s, step, steps[k] * step, save)
        return last.time, np.asarray(last.pv), [(x.time, np.asarray(x.pv)) for x in saved]
    import threading
    ids = {}
    rec, model, first = world_()

    def job(k):
        ids[k] = threading.get_ident()
        return go(model, first[k], k)
    how = pick(c.rng, ["free", _policy(c), _policy(c)])
    jobs = [lambda k=k: job(k) for k in range(n)]
    got = _collect(c, _run(c, jobs, how), [f"run of {s} steps" for s in steps])
    if got is None:
        return
    # thread numbers can be reused after a thread has ended
    reused = len(set(ids.values())) < n
    for k in range(n):
        rec1, model1, first1 = world_()
        want = go(model1, first1[k], k)
        same(c, list(got[k]), list(want), f"trajectory of thread {k}", 1e-5)
        if "recorder" in terms and not reused:
            a, b = rec.logs.get(ids[k], []), list(rec1.logs.values())[0]
            if c.equal([t for t, _ in a], [t for t, _ in b], f"times of the evaluations of the user's term in thread {k}"):
                c.close([x for _, x in a], [x for _, x in b], f"states given to the user's term in thread {k}", rtol=1e-4)
            c.event("evaluations of user terms", len(a))
        c.event("trajectories compared with those of the thread alone")


QUICK_SCALE = 12
CASES = [(shared, 90, 3000), (every_pair, 40, 8 * len(OPS)), (shared_free, 25, 700), (trajectories, 40, 1200)]
REQUIRED_EVENTS = {"handovers": 5000, "schedules with overlapping calls": 200, "results compared with those of the thread alone": 500, "free runs": 50, "trajectories compared with those of the thread alone": 100}
