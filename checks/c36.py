"""C36: work of any length needs bounded memory."""
import contextlib, datetime as dt, gc, tracemalloc
import numpy as np, barotropic as bt
import matplotlib.pyplot as plt
from lib.gen import *
from checks.c13 import Env, OPS, PLOTS, FIELDS
from checks.c33 import _par

TECHNIQUE = "runtime monitoring: live objects of the library counted by the garbage collector and bytes of array data traced (the analogue of a leak sanitizer) around runs, repeated calls and dropped objects"
RULE = "a case is a run, a repeated call or a sequence of short-lived objects; live objects and array bytes are measured after garbage collections at several points of it"

try:
    DOMAIN = np.lib.tracemalloc_domain
except AttributeError:
    DOMAIN = 389047

CLASSES = {"State": bt.State, "Grid": bt.Grid, "StateList": bt.StateList, "model": bt.BarotropicModel, "term": bt.rhs.RHS}

KINDS = {}


def live(*kinds):
    """Number of living objects of these classes of the library."""
    gc.collect()
    n = dict.fromkeys(kinds, 0)
    for o in gc.get_objects():
        t = type(o)
        if t not in KINDS:
            KINDS[t] = [k for k, cls in CLASSES.items() if issubclass(t, cls)]
        for k in KINDS[t]:
            if k in n:
                n[k] += 1
    return n


def array_bytes():
    """Bytes of array data alive that were allocated since tracing started."""
    gc.collect()
    snap = tracemalloc.take_snapshot().filter_traces([tracemalloc.DomainFilter(True, DOMAIN)])
    return sum(t.size for t in snap.traces)


@contextlib.contextmanager
def tracing():
    tracemalloc.start(1)
    try:
        yield
    finally:
        tracemalloc.stop()


class Counting(bt.rhs.RHS):
    """A term that counts the states alive at some of its evaluations."""

    def __init__(self, every, wrapped=None):
        self.every, self.wrapped, self.calls, self.seen = every, wrapped, 0, []

    def __call__(self, state):
        if self.calls % self.every == 0:
            self.seen.append((self.calls, live("State")["State"]))
        self.calls += 1
        return np.zeros(state.grid.shape) if self.wrapped is None else self.wrapped(state)


def _setup(c):
    """An initial state, time step and a model without its forcing."""
    w = world(c, [12, 16, 20, 24], truncate=0., legfunc=False)
    x = flow(c, w, min(w.band, 8))
    s = bt.State.from_vorticity(w.grid, pick(c.rng, [0, 0., 7200., dt.datetime(2001, 2, 27, 18)]), w.ref.synth(x))
    umax = float(max(np.max(np.abs(s.u)), np.max(np.abs(s.v)), abs(w.grid.omega) * w.grid.rsphere * .02, 1e-12))
    h = .05 * (2 * np.pi * w.grid.rsphere / w.grid.nlon) / umax
    h = float(max(1, round(h))) if h > 1 else h
    step = dt.timedelta(seconds=h) if isinstance(s.time, dt.datetime) else h
    bg = w.ref.f2 if c.rng.random() < .3 else None
    terms = [None, bt.rhs.LinearRelaxation(1e-4 / h, np.array(s.pv)), bt.rhs.GaussianMountain(height=10., center=(180., 40.)), bt.rhs.GaussianMountain(height=10., center=(180., 40.)) + bt.rhs.LinearRelaxation(1e-4 / h, np.array(s.pv))]
    return w, s, h, step, bg, pick(c.rng, terms)


def states_in_a_run(c):
    """However long a run, only the saved and a few recent states live."""
    w, s, h, step, bg, term = _setup(c)
    n = int(pick(c.rng, [60, 90, 130]))
    k = int(pick(c.rng, [0, 0, 0, 1, 3, 7, 20]))
    how = pick(c.rng, ["model", "state", "list"])
    probe = Counting(12, term)
    model = bt.BarotropicModel(probe, diffusion_coeff=.01 / (h * w.ref.eig[-1] ** 2), diffusion_bg=bg)
    c.note(steps=n, save_every=k, how=how, forcing=repr(type(term).__name__), background=bg is not None, time=str(s.time))
    kw = {"save_every": k * h} if k else {}
    before = live("State")["State"]
    with np.errstate(all="ignore"):
        if how == "model":
            out = model.run(s, step, s.time + n * step, **kw)
        elif how == "state":
            out = s.run(model, step, s.time + n * step, **kw)
        else:
            out = bt.StateList([s]).run(model, step, s.time + n * step, **kw)
    c.check(probe.calls >= n - 1, f"{probe.calls} evaluations of the forcing in {n} steps")
    for i, seen in probe.seen:
        saved = i // k + 2 if k else 2
        c.check(seen - before <= saved + 12, f"{seen - before} states are alive in step {i} of a run that has saved {saved if k else 'none'}")
        c.event("counts in runs")
    if k and n // k >= 1:
        c.event("runs that save states")
    after = live("State")["State"] - before
    want = (n // k + 3 if k else 1) + 1
    c.check(after <= want + 6, f"{after} states are alive after a run that returned about {want}")
    out = None
    after = live("State")["State"] - before
    c.check(after <= 6, f"{after} states are alive after the results of a run were dropped")
    c.event("dropped results")


def memory_of_a_run(c):
    """The peak of array data in a run does not grow with its length."""
    w, s, h, step, bg, term = _setup(c)
    model = bt.BarotropicModel(term, diffusion_coeff=.01 / (h * w.ref.eig[-1] ** 2), diffusion_bg=bg)
    n = int(pick(c.rng, [15, 25, 40]))
    how = pick(c.rng, ["model", "state", "steps"])
    c.note(steps=n, how=how, forcing=repr(type(term).__name__), background=bg is not None)

    def go(m):
        if how == "model":
            model.run(s, step, s.time + m * step)
        elif how == "state":
            s.run(model, step, s.time + m * step)
        else:
            a, b = s, model.euler(s, step)
            for _ in range(m):
                a, b = model.leapfrog(a, b)

    with np.errstate(all="ignore"):
        go(3)
        peaks = []
        with tracing():
            for m in (n, n, 5 * n):
                gc.collect()
                tracemalloc.reset_peak()
                low = tracemalloc.get_traced_memory()[0]
                go(m)
                peaks.append(tracemalloc.get_traced_memory()[1] - low)
    field = 4 * w.grid.nlon * w.grid.nlat
    grown = (peaks[2] - max(peaks[:2])) / (4 * n)
    c.event("peaks of runs")
    c.check(grown <= .35 * field, f"peak memory {peaks} bytes in runs of {n}, {n} and {5 * n} steps: {grown:.0f} bytes per step, a field has {field}")


def repeated_calls(c):
    """Repeating a call with the same objects does not accumulate anything."""
    seed, par = _par(c)
    e = Env(seed, par)
    names = list(OPS)
    name = names[(c.index * 7 + int(c.rng.integers(7))) % len(names)]
    # with the same objects; other states of the same flow on the same grid, with the same model and terms; other data
    fresh = pick(c.rng, ["same objects", "new states", "other data", "other data"])
    made = [0]
    c.note(op=name, fresh=fresh, **{k: str(v) for k, v in par.items()})

    def call():
        made[0] += 1
        if fresh == "other data":
            OPS[name](Env(seed + made[0], par))
            return
        if fresh == "new states":
            e.s = bt.State(e.grid, e.t0, pv=e.pv)
            e.s2 = bt.State(e.grid, e.t0, pv=e.vo)
            e.list = [e.s, e.s2, e.s]
            e.sl = bt.StateList(e.list)
        OPS[name](e)

    # caches of limited size must have had the chance to fill up
    warm, n = (40, 260) if fresh == "other data" else (12, 40)
    with np.errstate(all="ignore"), tracing():
        for _ in range(warm):
            call()
        b0, o0 = array_bytes(), live("State", "Grid", "StateList", "model", "term")
        for _ in range(n):
            call()
        b1, o1 = array_bytes(), live("State", "Grid", "StateList", "model", "term")
    row = 4 * e.grid.nlat
    c.check(b1 - b0 <= .5 * n * row, f"{b1 - b0} bytes of arrays more after {n} repetitions of {name}")
    for k in o0:
        c.check(o1[k] - o0[k] <= max(6, n // 4), f"{o1[k] - o0[k]} more objects of class {k} after {n} repetitions of {name}")
    c.event("repeated calls", n)


def dropped_objects(c):
    """Objects that the caller has dropped are released, up to a bounded number that may be cached."""
    n = 90
    ops = [pick(c.rng, list(OPS)) for _ in range(3)] + [pick(c.rng, ["rhs orography", "rhs product", "euler", "falwa" if "falwa" in OPS else "field falwa", "run"])]
    ops = [o for o in ops if o in OPS]
    if c.rng.random() < .04:
        ops.append(pick(c.rng, list(PLOTS)))
        n = 40
    c.note(ops=ops)
    par = dict(grid=dict(resolution=30.), time=pick(c.rng, [0., dt.datetime(2020, 2, 28, 23, 30)]), dt=600, how=pick(c.rng, ["pv", "spectrum", "wind", "vorticity"]))
    seed = int(c.rng.integers(2 ** 31))

    def go(m, k0):
        for k in range(m):
            p = dict(par, grid=dict(par["grid"], omega=EARTH_W * (1 + .01 * (k0 + k)), rsphere=EARTH_R * (1 + .002 * (k0 + k)))) # another planet each time
            e = Env(seed + k, p)
            for name in ops:
                (OPS.get(name) or PLOTS[name])(e)
            del e
        plt.close("all")

    with np.errstate(all="ignore"):
        go(4, 0)
        before = live(*CLASSES)
        with tracing():
            go(n, 4)
            b = array_bytes()
        after = live(*CLASSES)
    for k in before:
        c.check(after[k] - before[k] <= n // 2, f"{after[k] - before[k]} objects of class {k} are alive after {n} sets of objects were dropped")
    fields = b / (4. * 12 * 7)
    c.event("dropped sets of objects", n)
    # a grid holds about 20 arrays; at most some 16 grids and 16 pairs of cached fields may live on
    c.note(fields_alive=int(fields) // 50)
    c.check(fields <= 16 * 45 + 200, f"arrays of {fields:.0f} fields are alive after {n} sets of objects were dropped")


def long_lived(c):
    """Models, terms and mappings that live on do not collect the planets and states they have seen."""
    n = 90
    h = 600.
    kept = pick(c.rng, ["orography", "mountain", "sum", "own", "model", "nested"])
    seed, par = _par(c)
    lon, lat = np.arange(0, 361., 30.), np.arange(90., -91., -30.)
    hgt = c.rng.normal(size=(lat.size, lon.size)) * 100.
    class Own(bt.rhs.Orography):
        def __init__(self):
            super().__init__(None, None, None, wind=("zon", 1.))
        def orography(self, grid):
            return 100. * np.cos(grid.phi2) ** 2 * np.cos(3 * grid.lam2)
    make = {"orography": lambda: bt.rhs.Orography(lon, lat, hgt), "mountain": lambda: bt.rhs.GaussianMountain(height=50.), "own": Own,
            "sum": lambda: bt.rhs.Orography(lon, lat, hgt) + bt.rhs.GaussianMountain(height=50.), "model": lambda: None,
            "nested": lambda: (Own() + bt.rhs.Orography(lon, lat, hgt, wind=("sbr", 10.))) * bt.rhs.TimedOffSwitch(1e9)}
    term = make[kept]()
    model = bt.BarotropicModel(term)
    use = pick(c.rng, ["call", "euler", "run"]) if term is not None else pick(c.rng, ["euler", "run"])
    dims = pick(c.rng, [(12, 12), (12, 16), (20, 12, 16)])
    c.note(kept=kept, use=use, dims=dims)

    def go(m, k0):
        for k in range(k0, k0 + m):
            g = bt.Grid(360. / dims[k % len(dims)], omega=EARTH_W * (1 + .01 * k), rsphere=EARTH_R * (1 + .002 * k))
            s = bt.State.from_vorticity(g, 0., 1e-5 * np.cos(g.phi2) ** 2 * np.cos(2 * g.lam2))
            if use == "call":
                term(s)
            elif use == "euler":
                model.euler(s, h)
            else:
                model.run(s, h, 2 * h)

    with np.errstate(all="ignore"):
        go(12, 0)
        before = live(*CLASSES)
        with tracing():
            go(n, 12)
            b = array_bytes()
        after = live(*CLASSES)
    for k in before:
        c.check(after[k] - before[k] <= n // 2, f"{after[k] - before[k]} objects of class {k} are alive after a {kept} was used on {n} planets")
    fields = b / (4. * 12 * 7)
    c.check(fields <= 16 * 45 * max(dims) ** 2 / 144 + 200, f"arrays of {fields:.0f} fields are alive after a {kept} was used on {n} planets")
    c.event("planets seen by one term or model", n)


QUICK_SCALE = 4
CASES = [(states_in_a_run, 8, 60), (memory_of_a_run, 10, 80), (repeated_calls, 36, 200), (dropped_objects, 6, 60), (long_lived, 8, 60)]
REQUIRED_EVENTS = {"counts in runs": 60, "dropped results": 10, "peaks of runs": 12, "repeated calls": 2000, "dropped sets of objects": 600, "planets seen by one term or model": 800, "runs that save states": 4}
