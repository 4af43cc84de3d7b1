"""C34: interrupted, failing and refused calls leave no trace."""
import datetime as dt, os
import numpy as np, barotropic as bt
import matplotlib.pyplot as plt
from lib.gen import *
from lib.core import digest, Stop
from lib.sched import Interrupt
from checks.c13 import Env, OPS, PLOTS, FIELDS, same, states, grid_digest, handed_out
from checks.c33 import _par

TECHNIQUE = "runtime monitoring with fault injection: exceptions at single opcodes of the code under test, in user callbacks and iterators, and by refused input; digests and comparison with untouched twins afterwards"
RULE = "a case is a history with one or more faults (where, which exception, at which event or call); afterwards every input digest and result is compared with untouched twins"
SRC = os.path.dirname(os.path.abspath(bt.__file__))


class Custom(Exception):
    pass

class CustomBase(BaseException):
    pass

EXC = [ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError, AssertionError, RuntimeError, ArithmeticError, NotImplementedError, LookupError,
       OSError, MemoryError, Custom, CustomBase, KeyboardInterrupt, ImportError, NameError, FloatingPointError, RecursionError, UnicodeError, EOFError]


def _catch(f):
    """(exception or None, result)"""
    from lib.core import CaseTimeout
    try:
        return None, f()
    except CaseTimeout:
        raise
    except BaseException as e:
        return e, None


class Watch:
    """Everything that must be as before after a fault."""

    def __init__(self, c, e):
        self.c, self.e = c, e
        self.inputs, self.grid, self.kept = e.inputs(), grid_digest(e.grid), []

    def keep(self, out, name):
        arrs = []
        handed_out(out, arrs)
        self.kept += [(name, a, digest(a)) for a in arrs]

    def check(self, what):
        c = self.c
        now = self.e.inputs()
        c.check(now == self.inputs, f"{what} modified its inputs {[k for k in now if now[k] != self.inputs[k]]}")
        g = grid_digest(self.e.grid)
        c.check(g == self.grid, f"{what} modified the grid: {[q for q in self.grid if self.grid[q] != g.get(q)]}")
        for name, a, d in self.kept:
            c.check(digest(a) == d, f"{what} modified an array returned earlier by '{name}'")
        c.event("digests after faults", len(now) + len(self.kept) + 1)


def _aftermath(c, e, seed, par, names, what):
    """All later results are those without the fault."""
    twin = Env(seed, par)
    for name in names:
        same(c, states(OPS[name](e)), states(OPS[name](twin)), f"{name} after {what}", 1e-5)
        c.event("results after faults compared with untouched twins")
    for f in ["pv", "u", "v", "pv_spectral", "streamfunction"] + [pick(c.rng, FIELDS) for _ in range(3)]:
        same(c, getattr(e.s, f), getattr(twin.s, f), f"field {f} after {what}", 1e-5)
        same(c, getattr(e.s2, f), getattr(twin.s2, f), f"field {f} of the other state after {what}", 1e-5)


def _interrupt(c, name, warm):
    seed, par = _par(c)
    e = Env(seed, par)
    table = {**OPS, **PLOTS}
    w = Watch(c, e)
    for x in warm:
        w.keep(OPS[x](e), x)
    # number of events of this call in a twin with the same past
    opcodes = bool(c.rng.random() < .7)
    twin = Env(seed, par)
    for x in warm:
        OPS[x](twin)
    with Interrupt(SRC, -1, None, opcodes) as it:
        table[name](twin)
    plt.close("all")
    if it.count == 0:
        raise Stop()
    hits = 0
    for _ in range(int(c.rng.integers(1, 4))):
        n = it.count
        k = int(pick(c.rng, [c.rng.integers(1, n + 1), c.rng.integers(1, n + 1), max(1, n - int(c.rng.integers(0, 12))), min(n, 1 + int(c.rng.integers(0, 60)))]))
        exc = pick(c.rng, [KeyboardInterrupt, MemoryError, Custom])("injected")
        with Interrupt(SRC, k, exc, opcodes) as fault:
            got, _ = _catch(lambda: table[name](e))
        plt.close("all")
        if fault.where is None:
            c.event("faults not reached")
            continue
        hits += 1
        c.note(**{f"fault {hits}": f"{type(exc).__name__} at event {k} of {n} in {fault.where}"})
        c.event("interruptions")
        if not c.check(got is exc, f"{type(exc).__name__} in {fault.where} during {name} came out as {got!r}"):
            return
        w.check(f"{name}, interrupted in {fault.where},")
    later = [pick(c.rng, list(OPS)) for _ in range(2)]
    _aftermath(c, e, seed, par, ([name] if name in OPS else []) + later, f"{name} was interrupted")
    w.check(f"calls after interrupted {name}")


def interruption(c):
    name = pick(c.rng, list(OPS))
    warm = [pick(c.rng, list(OPS)) for _ in range(int(c.rng.integers(0, 3)))]
    c.note(op=name, warm=warm)
    _interrupt(c, name, warm)


def interrupted_fields(c):
    """Derived fields, models and terms are where results are kept."""
    name = pick(c.rng, ["field " + f for f in FIELDS] + ["rhs orography", "rhs product", "rhs sum", "euler", "leapfrog", "run", "state.run", "euler bg", "list run", "waveguides", "stationary_wavenumber"])
    warm = [pick(c.rng, ["field " + f for f in FIELDS])] if c.rng.random() < .3 else []
    c.note(op=name, warm=warm)
    _interrupt(c, name, warm)


def interrupted_plots(c):
    name = pick(c.rng, list(PLOTS))
    c.note(op=name)
    _interrupt(c, name, [])


def floating_point(c):
    """With numpy's errors turned into exceptions a call gives its result or FloatingPointError."""
    seed, par = _par(c)
    e = Env(seed, par)
    w = Watch(c, e)
    names = [pick(c.rng, list(OPS)) for _ in range(4)]
    c.note(ops=names)
    twin = Env(seed, par)
    for name in names:
        with np.errstate(all="raise"):
            exc, out = _catch(lambda: OPS[name](e))
        if exc is None:
            same(c, states(out), states(OPS[name](twin)), f"{name} with errors raised", 1e-5)
            c.event("results with errors raised")
        else:
            c.check(isinstance(exc, FloatingPointError), f"{name} with errors raised: {exc!r}")
            c.event("floating point errors")
        w.check(f"{name} with errors raised")
    _aftermath(c, e, seed, par, names, "floating point errors")


class Failing:
    """Counts its calls and raises in the k-th."""

    def __init__(self, f, k, exc):
        self.f, self.k, self.exc, self.calls = f, k, exc, 0

    def __call__(self, *a, **kw):
        self.calls += 1
        if self.calls == self.k:
            raise self.exc
        return self.f(*a, **kw)


class Term(bt.rhs.RHS):
    def __init__(self, f):
        self.f = f
    def __call__(self, state):
        return self.f(state)


class Mountain(bt.rhs.Orography):
    """A user's orography that fails at first."""
    def __init__(self, f):
        super().__init__(None, None, None)
        self.f = f
    def orography(self, grid):
        return self.f(grid)


def _iter(items, k, exc):
    for i, x in enumerate(items, 1):
        if i == k:
            raise exc
        yield x


def callbacks(c):
    """Exceptions of user functions, terms and iterators come out unchanged, at once, and only once."""
    seed, par = _par(c)
    e = Env(seed, par)
    w = Watch(c, e)
    warm = [pick(c.rng, list(OPS)) for _ in range(int(c.rng.integers(0, 2)))]
    for x in warm:
        w.keep(OPS[x](e), x)
    base = pick(c.rng, EXC)
    exc = base("from the user")
    rate = 1e-3 / e.dt
    tend = lambda s: -rate * s.vorticity
    n = int(c.rng.integers(1, 5))
    end = e.t0 + n * e.step
    site = pick(c.rng, ["euler", "leapfrog", "run", "run saves", "state run", "list run", "sum", "product", "map", "dataset field", "StateList", "dataset iterator",
                        "hovmoellerify values", "orography", "orography run"])
    k = int(c.rng.integers(1, {"run": n + 1, "run saves": n + 1, "state run": n + 1, "list run": 3 * n + 1, "orography": 2, "orography run": 2, "euler": 2, "leapfrog": 2,
                               "sum": 2, "product": 2}.get(site, 4)))
    fail = Failing({"map": lambda s: float(np.max(s.pv)), "dataset field": lambda s: s.u.mean(axis=-1), "hovmoellerify values": lambda s: s.v.mean(axis=0),
                    "orography": lambda g: 300. * np.cos(g.phi2) ** 2 * np.cos(g.lam2), "orography run": lambda g: 300. * np.cos(g.phi2) ** 2 * np.cos(g.lam2)}.get(site, tend), k, exc)
    term = Mountain(fail) if "orography" in site else Term(fail)
    model = bt.BarotropicModel({"sum": lambda: e.rhs_r + term + e.rhs_o, "product": lambda: term * bt.rhs.TimedOffSwitch(e.t0 + 10 * e.step)}.get(site, lambda: term)(),
                               diffusion_order=2, diffusion_coeff=.1 / (par["dt"] * e.ref.eig[-1] ** 2))
    model_id = model.rhs
    seen = 0
    two = e.s2
    calls = {
        "euler": lambda: model.euler(e.s, e.step), "leapfrog": lambda: model.leapfrog(e.s, two, .1), "run": lambda: model.run(e.s, e.step, end),
        "run saves": lambda: model.run(e.s, e.step, end, e.dt), "state run": lambda: e.s.run(model, e.step, end), "list run": lambda: e.sl.run(model, e.step, end),
        "sum": lambda: model.euler(e.s, e.step), "product": lambda: model.run(e.s, e.step, end), "map": lambda: e.sl.map(fail),
        "dataset field": lambda: bt.io.as_dataset(e.list, {"q": "pv", "x": fail}), "StateList": lambda: bt.StateList(_iter(e.list, fail.k, exc)),
        "dataset iterator": lambda: bt.io.as_dataset(_iter(e.list, fail.k, exc), {"q": "pv"}),
        "hovmoellerify values": lambda: bt.plot.hovmoellerify(e.list, fail),
        "orography": lambda: term(e.s), "orography run": lambda: model.run(e.s, e.step, end),
    }
    c.note(site=site, exception=base.__name__, call=k, steps=n, warm=warm)
    got, _ = _catch(calls[site])
    if not c.check(got is exc, f"{exc!r} of the user's code ({site}, call {k}) came out as {got!r}"):
        return
    if "iterator" not in site and site != "StateList":
        c.equal(fail.calls, k, f"calls of the user's function at its failure ({site})")
    c.event("exceptions of user code")
    c.check(model.rhs is model_id, "terms of the model after a failure")
    w.check(f"failing {site}")
    # again, without failure, with the same model, term and function
    fail.k = None
    out = states(calls[site]())
    twin = Env(seed, par)
    fresh = Failing(fail.f, None, None)
    e_, e, fail, two = e, twin, fresh, twin.s2
    term = Mountain(fresh) if "orography" in site else Term(fresh)
    model = bt.BarotropicModel({"sum": lambda: e.rhs_r + term + e.rhs_o, "product": lambda: term * bt.rhs.TimedOffSwitch(e.t0 + 10 * e.step)}.get(site, lambda: term)(),
                               diffusion_order=2, diffusion_coeff=.1 / (par["dt"] * e.ref.eig[-1] ** 2))
    same(c, out, states(calls[site]()), f"{site} again after the failure", 1e-5)
    c.event("calls repeated after a failure")
    _aftermath(c, e_, seed, par, [pick(c.rng, list(OPS)) for _ in range(2)], f"{site} failed")
    w.check(f"calls after failing {site}")


BAD = {
    "state without data": lambda e: bt.State(e.grid, 0.),
    "state with both": lambda e: bt.State(e.grid, 0., pv=e.pv, pv_spectral=e.spec),
    "add_wind shape": lambda e: e.s.add_wind((e.wu[1:], e.wv[1:])),
    "add_wind second shape": lambda e: e.s.add_wind((e.wu, e.wv[:, :-1])),
    "add_vorticity shape": lambda e: e.s.add_vorticity(e.vo[:, 1:]),
    "filter shape": lambda e: e.grid.filter_zonal(e.vo[:, 1:], "hann", 40),
    "filter meridional shape": lambda e: e.grid.filter_meridional(e.vo[1:], e.win),
    "quad shape": lambda e: e.grid.quad(e.pv[1:]),
    "quad method": lambda e: e.grid.quad(e.pv, e.mask, method="simpson"),
    "mean axis": lambda e: e.grid.mean(e.pv, axis="vertical"),
    "mean shape": lambda e: e.grid.mean(e.pv[1:]),
    "derivative order": lambda e: e.grid.derivative_meridional(e.pv, 3),
    "derivative rank": lambda e: e.grid.derivative_meridional(np.stack([e.pv, e.pv])),
    "interpolation": lambda e: e.grid.interpolate_meridional(e.yval, e.ylat[1:], pole_values=(1., -1.)),
    "zonalize method": lambda e: e.grid.zonalize(e.pv, quad="simpson"),
    "falwa array without grid": lambda e: bt.diagnostics.falwa(e.pv),
    "ks kind": lambda e: bt.diagnostics.stationary_wavenumber(e.s, kind="cubed"),
    "region steps": lambda e: e.grid.region[0:90:2, :],
    "extract shape": lambda e: e.region.extract(e.pv[1:, 1:-1]),
    "profile shape": lambda e: bt.init.zonally_symmetric(e.grid, u=e.u1[1:]),
    "profile both": lambda e: bt.init.zonally_symmetric(e.grid, u=e.u1, pv=e.profile),
    "list with others": lambda e: bt.StateList([e.s, e.s2, 3]),
    "list with other grid": lambda e: bt.StateList([e.s, bt.init.resting(bt.Grid(45.))]),
    "list attribute": lambda e: e.sl.nothing,
    "state attribute": lambda e: e.s.nothing,
    "dataset names": lambda e: bt.io.from_dataset(e.ds, {"vo": "missing"}),
    "dataset half": lambda e: bt.io.from_dataset(e.ds.isel(lon=slice(1, None)), e.names, e.kwargs, e.t0),
    "dataset fields": lambda e: bt.io.as_dataset(e.list, {"x": "nothing"}),
    "mountain wind": lambda e: bt.rhs.GaussianMountain(wind=("foo", 1.)),
    "relaxation shape": lambda e: bt.BarotropicModel(bt.rhs.LinearRelaxation(1e-5, e.refpv[1:])).euler(e.s, e.step),
    "spectral shape": lambda e: e.grid.to_grid(e.spec[:-1]),
    "transform shape": lambda e: e.grid.to_spectral(e.pv[1:]),
}


def refusals(c):
    """Refused calls between others."""
    seed, par = _par(c)
    e = Env(seed, par)
    w = Watch(c, e)
    plan = []
    twin = Env(seed, par)
    for _ in range(int(c.rng.integers(2, 6))):
        bad = pick(c.rng, list(BAD)); good = pick(c.rng, list(OPS))
        plan += [bad, good]
        exc, _ = _catch(lambda: BAD[bad](e))
        c.check(exc is None or isinstance(exc, Exception), f"{bad}: {exc!r}")
        c.event("refused calls" if exc is not None else "accepted calls")
        w.check(f"refused {bad}")
        out = OPS[good](e)
        same(c, states(out), states(OPS[good](twin)), f"{good} after {plan}", 1e-5)
        w.keep(out, good)
    c.note(plan=plan)
    _aftermath(c, e, seed, par, [pick(c.rng, list(OPS))], f"refusals {plan}")


QUICK_SCALE = 12
CASES = [(interruption, 60, 2500), (interrupted_fields, 60, 2500), (interrupted_plots, 2, 60), (floating_point, 25, 700), (callbacks, 70, 2500), (refusals, 25, 700)]
REQUIRED_EVENTS = {"interruptions": 300, "exceptions of user code": 150, "calls repeated after a failure": 150, "results after faults compared with untouched twins": 500, "refused calls": 100,
                   "results with errors raised": 50, "digests after faults": 10000}
