"""C17: what a run evaluates, saves and returns, from the event log of its forcing and an independent stepping."""
import datetime as dt
import numpy as np, barotropic as bt
from lib.gen import *

RULE = "a case is a state, start time, step, end, save interval; the log of forcing evaluations and the returned states are compared with the specified schedule and with a trajectory stepped from outside"


class Logger(bt.rhs.RHS):
    """A forcing that depends on time and state, and records when it is evaluated."""
    def __init__(self, field, unit):
        self.field, self.unit, self.log = field, unit, []

    def phase(self, t):
        if isinstance(t, dt.datetime):
            t = (t - dt.datetime(2020, 1, 1)).total_seconds()
        return float(t) / self.unit

    def __call__(self, state):
        self.log.append(state.time)
        return self.field * (1 + np.cos(self.phase(state.time))) - .02 / self.unit * state.pv


def expected(t0, step, tend):
    """Times of the states of the run."""
    ts, t = [t0], t0
    while t < tend:
        t = t + step
        ts.append(t)
    return ts


def run(c):
    w = world(c, [12, 16, 20, 24], truncate=.3)
    g, ref = w.grid, w.ref
    low = max(1, min(ref.nmax // 2, w.band))
    c_vo = ref.random(c.rng, low, 1, 1., vort_scale(ref))
    c_pv = c_vo + ref.c_fcor()
    q = np.max(np.abs(ref.synth(c_pv)))
    umax = np.max(np.hypot(*ref.wind(c_vo)))
    limit = .15 / (umax * np.sqrt(ref.eig[low]) + 2 * abs(ref.omega) / 6 + 1e-30) # stable step
    form = pick(c.rng, ["float", "float", "int", "datetime", "negative", "late"])
    if form in ("int", "datetime"):
        if limit < 2:
            form = "float"
    step = 2. ** int(np.floor(np.log2(limit))) # dyadic, so that times are exact
    if form != "datetime" and c.rng.random() < .3:
        step = step * .75
    if form != "datetime" and c.rng.random() < .2: # fractions of a second
        step = min(step, pick(c.rng, [.5, .25, .375, 2. ** -7, 2. ** -4]))
        form = "float" if form == "int" else form
    n = int(c.rng.integers(1, 16))
    t0 = {"float": 0., "int": 0, "datetime": dt.datetime(2020, 2, 28, 21, 0, 0, pick(c.rng, [0, 0, 7, 250000])), "negative": -step * int(c.rng.integers(1, 40)) - pick(c.rng, [0, step / 4]),
          "late": step * int(c.rng.integers(1, 500)) + pick(c.rng, [0, step / 2])}[form]
    d = step
    if form == "int":
        step = d = int(max(1, step)); t0 = int(pick(c.rng, [0, 5 * step, 3600]))
    if form == "datetime":
        d = int(max(1, step)); step = dt.timedelta(seconds=d)
    # end: exactly on a step, between steps, at or before the start
    end = pick(c.rng, ["on", "on", "between", "between", "start", "before", "just after"])
    k = {"on": n, "between": n - pick(c.rng, [.5, .25, .75]), "start": 0, "before": -n, "just after": 1 / 1024}[end]
    if form == "int":
        tend = t0 + int(np.ceil(k * step)) if k > 0 else t0 + int(np.floor(k * step))
    elif form == "datetime":
        tend = t0 + dt.timedelta(seconds=k * d)
    else:
        tend = t0 + k * step
    save = None
    if c.rng.random() < .8:
        mult = pick(c.rng, [1, 2, 3, 5, .5, .25, 1.5, 2.5, 1.25, 4, 7, 100, 0, -1])
        mult *= pick(c.rng, [1, 1, 1, 1 + 2. ** -22, 1 - 2. ** -22, 1 + 2. ** -9])
        save = mult * d
        if form == "int" and float(save).is_integer():
            save = int(save)
    c.note(form=form, t0=repr(t0), step=repr(step), tend=repr(tend), save=save)
    F = ref.synth(ref.random(c.rng, w.band, 0, 1., .02 * q / d))
    log = Logger(F, d)
    forced = c.rng.random() < .85
    coeff = pick(c.rng, [0., .1 / (d * ref.eig[w.band] ** 2)])
    model = bt.BarotropicModel(log if forced else None, diffusion_coeff=coeff)
    s0 = bt.State(g, t0, pv=ref.synth(c_pv))
    args = [s0, step, tend] + ([] if save is None else [save])
    if c.rng.random() < .3:
        out = model.run(s0, tend=tend, dt=step, **({} if save is None else {"save_every": save}))
    else:
        out = model.run(*args)
    c.check(isinstance(out, tuple) and len(out) == 2, "run returns a pair")
    last, saved = out
    ts = expected(t0, step, tend)
    K = len(ts) - 1
    # the log
    if forced and K > 0:
        seen = [t for i, t in enumerate(log.log) if i == 0 or t != log.log[i - 1]]
        c.check(seen == ts, f"forcing evaluated at {log.log[:6]}... ({len(log.log)} times), expected {ts[:6]}... ({len(ts)} times)")
        c.event("forcing evaluations", len(log.log))
    # trajectory from outside
    log2 = Logger(F, d)
    m2 = bt.BarotropicModel(log2 if forced else None, diffusion_coeff=coeff)
    traj = [s0]
    if K > 0:
        now, new = s0, m2.euler(s0, step)
        for _ in range(K):
            now, new = m2.leapfrog(now, new)
            traj.append(now)
    def compare(s, k, msg):
        c.check(s.time == ts[k] and type(s.time) is type(ts[k]), f"{msg}: time {s.time!r}, expected {ts[k]!r}")
        c.close(s.pv, traj[k].pv, f"{msg}: PV", rtol=2e-6 * (1 + k), scale=q)
        c.check(s.grid is g, f"{msg}: grid")
        c.event("states compared with the trajectory")
    compare(last, K, "final state")
    # saved states: first at or past each multiple
    c.check(isinstance(saved, bt.StateList), f"saved states are a {type(saved).__name__}")
    want = [0]
    if save is not None and save > 0:
        passed = 0 # multiples accounted for
        for k in range(1, K + 1):
            elapsed = k * d
            if elapsed >= (passed + 1) * save:
                want.append(k)
                passed += 1
        # one state at most per step: lagging multiples go to the next steps
    got = [s.time for s in saved]
    c.check(got == [ts[k] for k in want], f"saved at {got}, expected {[ts[k] for k in want]}")
    if len(saved) == len(want):
        for s, k in zip(saved, want):
            compare(s, k, f"saved state {k}")
    c.event("runs"); c.event("saved states", len(saved))
    if K == 0:
        c.event("runs that do not step")
        c.close(last.pv, s0.pv, "a run that does not step returns the initial state", atol=0.)
    # the run through the state and another one, in which steps are observed
    if c.rng.random() < .3:
        out2 = s0.run(model, *args[1:])
        c.close(out2[0].pv, last.pv, "State.run", rtol=1e-6)
        c.check([s.time for s in out2[1]] == got, "State.run: saved states")


CASES = [(run, 150, 5000)]
REQUIRED_EVENTS = {"runs": 150, "forcing evaluations": 500, "saved states": 200, "states compared with the trajectory": 300, "runs that do not step": 10}
