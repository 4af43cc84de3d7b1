"""C18: results do not depend on time units, history or batching."""
import copy, datetime as dt, pickle
import numpy as np, barotropic as bt
from lib.gen import *

RULE = "a case is a set of planned runs and the history they are executed in; every result is compared with the same run on fresh objects"


class Clocked(bt.rhs.RHS):
    """Forcing that depends on the elapsed time only."""
    def __init__(self, field, t0, unit):
        self.field, self.t0, self.unit = field, t0, unit
    def __call__(self, s):
        d = s.time - self.t0
        d = d.total_seconds() if isinstance(d, dt.timedelta) else float(d)
        return self.field * np.cos(d / self.unit)


def terms(kind, spec, t0):
    """A forcing built from scratch."""
    F, d = spec["F"], spec["dt"]
    table = {
        "none": lambda: None,
        "relax": lambda: bt.rhs.LinearRelaxation(.05 / d, F * d),
        "mountain": lambda: bt.rhs.GaussianMountain(spec["h"], (20., 40.), (30., 20.), wind=spec["wind"]),
        "sine": lambda: bt.rhs.ZonalSineMountains(spec["h"], 30., 25., 2, wind=spec["wind"]),
        "grid orography": lambda: bt.rhs.Orography(spec["olon"], spec["olat"], spec["oro"], wind=spec["wind"]),
        "clock": lambda: Clocked(F, t0, 3 * d),
        "switched": lambda: bt.rhs.TimedOffSwitch(t0 + (dt.timedelta(seconds=2 * d) if isinstance(t0, dt.datetime) else 2 * d)) * terms("mountain", spec, t0),
        "sum": lambda: terms("relax", spec, t0) + terms("clock", spec, t0),
    }
    return table[kind]()


class Plan:
    """A run described by plain data, so that it can be set up from scratch any number of times."""
    def __init__(self, c, gridpar=None, dt_=None, fkind=None, form="float"):
        rng = c.rng
        if gridpar is None:
            nlon = pick(rng, [12, 16, 20, 24])
            gridpar = dict(resolution=360. / nlon, rsphere=float(pick(rng, [EARTH_R, 2e6])), omega=float(pick(rng, [EARTH_W, 2e-5, 1.5e-4, 3e-7, .2])))
            if rng.random() < .3:
                gridpar["ntrunc"] = max(4, nlon // 2 - 2)
        self.gridpar = gridpar
        g = bt.Grid(**gridpar)
        ref = RefSphere(g.nlon, g.rsphere, g.omega)
        self.nmax = ref.nmax
        low = max(2, ref.nmax // 2)
        vo = ref.random(rng, low, 1, 1., vort_scale(ref))
        self.pv = ref.synth(vo + ref.c_fcor())
        self.q = np.max(np.abs(self.pv))
        if dt_ is None:
            umax = np.max(np.hypot(*ref.wind(vo)))
            dt_ = 2. ** np.floor(np.log2(.15 / (umax * np.sqrt(ref.eig[low]) + 2 * g.omega / 6)))
        self.dt = dt_
        self.coeff = float(pick(rng, [0., .1])) / (self.dt * ref.eig[low] ** 2)
        self.kind = fkind or pick(rng, ["none", "relax", "mountain", "sine", "grid orography", "clock", "switched", "sum"])
        self.bg = None if self.coeff == 0. or rng.random() < .5 else ref.synth(ref.random(rng, ref.nmax, 0, .5, vort_scale(ref)) + ref.c_fcor())
        olon, olat = np.arange(0, 361., 30.), np.arange(90., -91., -30.)
        oro = rng.normal(size=(olat.size, olon.size)) * g.rsphere * 1e-4
        oro[:, -1] = oro[:, 0]
        self.spec = dict(F=ref.synth(ref.random(rng, low, 0, 1., .02 * self.q / self.dt)), dt=self.dt, h=1e-4 * g.rsphere,
                         wind=pick(rng, [("act", 1.), ("zon", .5), ("sbr", 1e-2 * self.q * ref.r)]), olon=olon, olat=olat, oro=oro)
        self.t0 = {"float": 0., "late": self.dt * 64, "int": 0, "datetime": dt.datetime(2020, 12, 31, 22), "old": dt.datetime(1969, 12, 31, 23)}[form]
        self.n = int(rng.integers(1, 6))
        self.save = pick(rng, [0, 1, 2])

    def step(self):
        return dt.timedelta(seconds=self.dt) if isinstance(self.t0, dt.datetime) else self.dt

    def grid(self):
        return bt.Grid(**self.gridpar)

    def model(self):
        return bt.BarotropicModel(terms(self.kind, self.spec, self.t0), diffusion_coeff=self.coeff, diffusion_bg=self.bg)

    def state(self, g=None):
        return bt.State(g or self.grid(), self.t0, pv=self.pv.copy())

    def run(self, model=None, state=None):
        model = model or self.model()
        state = state or self.state()
        if isinstance(self.t0, dt.datetime):
            return model.run(state, self.step(), self.t0 + self.n * self.step())
        return model.run(state, self.step(), self.t0 + self.n * self.step(), save_every=self.save * self.dt)


def _same(c, got, want, plan, msg):
    a, b = got[0], want[0]
    tol = 5e-6 * max(plan.q, float(np.max(np.abs(b.pv))))
    c.check(a.time == b.time and type(a.time) is type(b.time), f"{msg}: final time {a.time!r}, expected {b.time!r}")
    for f, s in (("pv", 1.), ("u", a.grid.rsphere), ("v", a.grid.rsphere)):
        c.close(getattr(a, f), getattr(b, f), f"{msg}: {f} of the final state", atol=tol * s)
    if c.check(len(got[1]) == len(want[1]), f"{msg}: number of saved states {len(got[1])}, expected {len(want[1])}"):
        for x, y in zip(got[1], want[1]):
            c.check(x.time == y.time, f"{msg}: times of saved states")
            c.close(x.pv, y.pv, f"{msg}: saved states", atol=tol)
    c.event("results compared")


def repeats(c):
    """A shared model and state, after other runs, fields, plots, other grids and steps."""
    p = Plan(c, form=pick(c.rng, ["float", "late", "int", "datetime"]))
    c.note(grid=p.gridpar, forcing=p.kind, dt=p.dt, n=p.n, bg=p.bg is not None)
    want = p.run()
    model, state = p.model(), p.state()
    others = []
    for _ in range(int(c.rng.integers(1, 4))):
        # Same shape but another planet or truncation; another shape; the same grid
        gp = dict(p.gridpar)
        what = pick(c.rng, ["radius", "omega", "truncation", "shape", "same", "equal"])
        if what == "radius":
            gp["rsphere"] *= pick(c.rng, [2., .5, 1.01])
        elif what == "omega":
            gp["omega"] *= pick(c.rng, [2., .5, -1.])
        elif what == "truncation":
            gp["ntrunc"] = max(3, int(180. / gp["resolution"]) - 4)
        elif what == "shape":
            gp.pop("ntrunc", None)
            gp["resolution"] = 360. / pick(c.rng, [n for n in [12, 16, 20, 24, 28] if abs(360. / n - gp["resolution"]) > 1])
        g2 = bt.Grid(**gp) if what != "same" else state.grid
        shape_ok = (p.kind in ("none", "mountain", "sine", "grid orography", "switched") and p.bg is None) or what != "shape"
        if not shape_ok:
            continue
        others.append(what)
        r2 = RefSphere(g2.nlon, g2.rsphere, g2.omega)
        s2 = bt.State(g2, p.t0, pv=r2.synth(r2.random(c.rng, 3, 1, 1., p.q * .1) + r2.c_fcor()))
        step = p.step() * pick(c.rng, [1, 2, .5])
        got = model.run(s2, step, p.t0 + 2 * step)
        fresh = p.model().run(bt.State(bt.Grid(**gp), p.t0, pv=np.array(s2.pv)), step, p.t0 + 2 * step)
        c.close(got[0].pv, fresh[0].pv, f"run on a grid of other {what}: final PV", atol=5e-6 * max(p.q, np.max(np.abs(fresh[0].pv))))
        c.event("other runs in between")
        if c.rng.random() < .5:
            _same(c, p.run(model, state), want, p, f"repeated run after {others}")
    c.note(others=others)
    if p.bg is not None:
        c.event("models with a background on several grids", len(others))
    for f in ("falwa", "streamfunction", "u", "fawa"):
        if c.rng.random() < .4:
            getattr(state, f)
    _same(c, p.run(model, state), want, p, f"repeated run after {others}")
    _same(c, p.run(model, p.state()), want, p, f"same model, fresh state, after {others}")
    _same(c, p.run(model, p.state(state.grid)), want, p, f"same model and grid after {others}")
    _same(c, p.run(p.model(), state), want, p, f"fresh model, same state after {others}")


def interleaved(c):
    """Two runs stepped alternately with shared models equal the separate runs."""
    p1 = Plan(c)
    same_model = c.rng.random() < .6
    p2 = Plan(c, gridpar=p1.gridpar if c.rng.random() < .5 else {**p1.gridpar, "rsphere": p1.gridpar["rsphere"] * 1.5}, dt_=p1.dt * pick(c.rng, [1., .5]), fkind=p1.kind)
    c.note(grid=p1.gridpar, grid2=p2.gridpar, forcing=p1.kind, dt=p1.dt, same_model=same_model)
    if same_model:
        p2.spec, p2.coeff, p2.bg = p1.spec, p1.coeff, p1.bg
    m1 = p1.model()
    m2 = m1 if same_model else p2.model()
    n = int(c.rng.integers(2, 6))
    def alone(p):
        m = p.model(); s = p.state(); now, new = s, m.euler(s, p.step())
        out = []
        for _ in range(n):
            now, new = m.leapfrog(now, new)
            out.append((np.array(now.pv), np.array(new.pv)))
        return out
    w1, w2 = alone(p1), alone(p2)
    a, b = p1.state(), p2.state()
    pair = {1: (a, m1.euler(a, p1.step())), 2: (b, m2.euler(b, p2.step()))}
    order = [1] * n + [2] * n
    c.rng.shuffle(order)
    c.note(order=[int(x) for x in order])
    done = {1: 0, 2: 0}
    for k in order:
        k = int(k)
        p, m, w = ((p1, m1, w1), (p2, m2, w2))[k - 1]
        pair[k] = m.leapfrog(*pair[k])
        for s, x in zip(pair[k], w[done[k]]):
            c.close(s.pv, x, f"interleaved run {k}, step {done[k]}", atol=5e-6 * max(p.q, float(np.max(np.abs(x)))))
        done[k] += 1
        c.event("interleaved steps")


def axes(c):
    """The same run on different time axes, and restarts."""
    base = Plan(c, fkind=pick(c.rng, ["none", "relax", "mountain", "clock", "switched", "sum"]))
    if base.dt >= 2:
        base.dt = float(int(base.dt * pick(c.rng, [1., .75]))) - pick(c.rng, [0., .5])
    elif base.dt >= 1 / 64:
        base.dt = np.floor(base.dt * 64) / 64
    exact = float(base.dt * 64).is_integer() and base.dt >= 1 / 64 # representable as timedelta
    base.spec["dt"] = base.dt
    base.save = 0
    c.note(grid=base.gridpar, forcing=base.kind, dt=base.dt, n=base.n)
    want = base.run()[0]
    forms = [0., 0, base.dt * 1000, -base.dt * 3.5, np.float64(base.dt)]
    if exact:
        forms += [dt.datetime(2020, 2, 28, 23), dt.datetime(1969, 12, 31, 23, 59), dt.datetime(2000, 1, 1, tzinfo=dt.timezone.utc)]
    for t0 in forms:
        p = copy.copy(base)
        p.t0 = t0
        if type(t0) is int and float(base.dt).is_integer():
            p.dt = int(base.dt)
        got = p.run()[0]
        for f, s in (("pv", 1.), ("u", got.grid.rsphere)):
            c.close(getattr(got, f), getattr(want, f), f"{f} of a run starting at {t0!r}", atol=1e-5 * max(base.q, float(np.max(np.abs(want.pv)))) * s)
        elapsed = got.time - t0
        elapsed = elapsed.total_seconds() if isinstance(elapsed, dt.timedelta) else elapsed
        c.check(abs(elapsed - base.n * base.dt) < 1e-6 * base.dt, f"end of a run starting at {t0!r}: {got.time!r}")
        c.event("time axes")
    # saved states, too (steps of less and more than a day)
    if exact:
        every = base.dt * pick(c.rng, [1, 2, 3, .5, 1.5])
        n = base.n + int(pick(c.rng, [0, 5, 20])) if base.kind in ("none", "relax") else base.n
        num = base.model().run(bt.State(base.grid(), 0., pv=base.pv), base.dt, n * base.dt, save_every=every)
        t0, h = dt.datetime(2020, 2, 28, 23), dt.timedelta(seconds=base.dt)
        p = copy.copy(base); p.t0 = t0
        dat = p.model().run(bt.State(p.grid(), t0, pv=p.pv), h, t0 + n * h, save_every=every)
        c.check([(s.time - t0).total_seconds() for s in dat[1]] == [s.time for s in num[1]], f"saved states of a run with datetimes: {len(dat[1])}, with numbers: {len(num[1])}")
        for a, b in zip([dat[0], *dat[1]], [num[0], *num[1]]):
            c.close(a.pv, b.pv, f"run of {n} steps with datetimes", atol=2e-6 * (3 + n) * max(base.q, float(np.max(np.abs(b.pv)))))
        c.event("runs with saved states on both axes")
    # a restart is a run of its own from the saved state
    mid = base.run()[0]
    m = base.model()
    one = m.run(mid, base.step(), mid.time + 2 * base.step())[0]
    two = base.model().run(bt.State(base.grid(), mid.time, pv=np.array(mid.pv)), base.step(), mid.time + 2 * base.step())[0]
    size = max(base.q, float(np.max(np.abs(mid.pv))), float(np.max(np.abs(two.pv)))) # long steps amplify rounding errors
    c.close(one.pv, two.pv, "restart from a returned state", atol=3e-5 * size)
    three = m.run(pickle.loads(pickle.dumps(mid)) if c.rng.random() < .5 else copy.deepcopy(mid), base.step(), mid.time + 2 * base.step())[0]
    c.close(three.pv, two.pv, "restart from a copied state", atol=3e-5 * size)
    c.event("restarts")


def batches(c):
    p = Plan(c, form=pick(c.rng, ["float", "datetime", "late"]))
    n = int(pick(c.rng, [0, 1, 2, 3, 4]))
    c.note(grid=p.gridpar, forcing=p.kind, dt=p.dt, members=n)
    g = p.grid()
    ref = RefSphere(g.nlon, g.rsphere, g.omega)
    pvs = [p.pv + ref.synth(ref.random(c.rng, 3, 1, 1., .2 * p.q)) for _ in range(n)]
    sl = bt.StateList([bt.State(g, p.t0, pv=x) for x in pvs])
    m = p.model()
    args = (p.step(), p.t0 + p.n * p.step())
    kw = {} if isinstance(p.t0, dt.datetime) else {"save_every": p.save * p.dt}
    out = sl.run(m, *args, **kw)
    c.check(isinstance(out, tuple) and len(out) == 2, "collection run returns a pair")
    last, saved = out
    c.check(isinstance(last, bt.StateList) and len(last) == n and len(saved) == n, f"results of {n} members: {last!r}, {len(saved)}")
    for k in range(n):
        fresh = p.model().run(bt.State(p.grid(), p.t0, pv=pvs[k]), *args, **kw)
        _same(c, (last[k], saved[k]), fresh, p, f"member {k} of {n}")
        c.check(isinstance(saved[k], bt.StateList), "saved states of a member")
        _same(c, sl[k].run(p.model(), *args, **kw), fresh, p, f"State.run of member {k}")
        _same(c, m.run(sl[k], *args, **kw), fresh, p, f"model.run of member {k}")
    # order of the members is irrelevant
    if n > 1:
        rev = bt.StateList(list(sl)[::-1]).run(m, *args, **kw)
        for k in range(n):
            c.close(rev[0][n - 1 - k].pv, last[k].pv, "reversed collection", atol=5e-6 * max(p.q, float(np.max(np.abs(last[k].pv)))))
    c.event("batches")


CASES = [(repeats, 30, 1200), (interleaved, 20, 800), (axes, 20, 800), (batches, 20, 800)]
REQUIRED_EVENTS = {"results compared": 150, "other runs in between": 20, "interleaved steps": 80, "time axes": 60, "runs with saved states on both axes": 10, "restarts": 15, "batches": 15}
