"""C16: Euler and leapfrog steps against a float64 reference of the documented scheme."""
import datetime as dt
import numpy as np, barotropic as bt
from lib.gen import *

RULE = "a case is a planet, grid, two states, forcing, diffusion setting and time step; each returned state is compared with the step computed in float64 from the documented formula"
TOL = 3e-5


def _forcing(c, w, q, dts):
    """(forcing object, function c_pv -> coefficients)"""
    ref = w.ref
    kind = pick(c.rng, ["none", "none", "constant field", "relaxation", "sum", "f32", "int"])
    c.note(forcing=kind)
    if kind == "none":
        return None, lambda cp: 0.
    cf = ref.random(c.rng, w.band, 0, 1., .5 * q / dts)
    F = ref.synth(cf)
    if kind == "constant field":
        class T(bt.rhs.RHS):
            def __call__(self, s): return F
        return T(), lambda cp: cf
    if kind == "f32":
        F32 = F.astype(np.float32)
        return (lambda s: F32), lambda cp: cf
    if kind == "int":
        one = np.ones(ref.shape, dtype=int)
        c1 = ref.analysis(one) # forcing of one unit
        return (lambda s: one), lambda cp: c1
    if kind == "relaxation":
        rate = float(c.rng.uniform(.05, .6)) / dts
        return bt.rhs.LinearRelaxation(rate, F * dts), lambda cp: rate * (cf * dts - cp)
    rate = .2 / dts
    return bt.rhs.LinearRelaxation(rate, 0. * F) + (lambda s: F), lambda cp: cf - rate * cp


def _tendency(w, cp, force):
    div = w.ref.analysis(w.ref.flux_divergence(cp))
    return w.ref.truncate(force(cp) - div, w.ntrunc)


def _setup(c):
    w = world(c, NLON_SMALL + [48], truncate=.4)
    ref = w.ref
    low = max(1, min(ref.nmax // 2, w.band))
    amp = vort_scale(ref)
    c_vo = [ref.random(c.rng, low, 1, float(c.rng.uniform(.3, 1.5)), amp) for _ in range(2)]
    c_pv = [x + ref.c_fcor() for x in c_vo]
    if c.rng.random() < .25: # PV need not have zero mean
        c_pv[0][0, 0] += amp * c.rng.normal(); c_pv[1][0, 0] = c_pv[0][0, 0]
        c.note(mean=True)
    q = max(np.max(np.abs(ref.synth(x))) for x in c_pv)
    umax = max(np.max(np.hypot(*ref.wind(x - ref.c_fcor()))) for x in c_pv)
    fl = max(np.max(np.abs(ref.flux_divergence(x))) for x in c_pv)
    dts = float(c.rng.uniform(.1, .6)) * q / (fl + 1e-3 * q * umax / ref.r)
    dts = min(dts, 1e8)
    if c.rng.random() < .3: # short steps, in which a strong forcing acts
        dts = min(dts, float(np.exp(c.rng.uniform(np.log(.05), np.log(100)))))
    form = pick(c.rng, ["float", "float", "int", "datetime", "np"])
    if form in ("int", "datetime") and dts < 10:
        form = "float"
    if form == "int":
        dts = float(int(dts))
    elif form == "datetime":
        dts = np.floor(dts * 16) / 16
    t0 = {"float": float(pick(c.rng, [0., 7200., -500., 1e6])), "int": int(pick(c.rng, [0, 3600])), "np": np.float64(30.), "datetime": dt.datetime(2020, 2, 28, 12)}[form]
    step = {"float": dts, "int": int(dts), "np": np.float64(dts), "datetime": dt.timedelta(seconds=dts)}[form]
    # diffusion: how strongly the smallest scale is damped in one step
    order = pick(c.rng, [1, 2, 2, 3, 4])
    x = float(pick(c.rng, [0., .1, 1., 10., 1e3]))
    coeff = x / (dts * ref.eig[w.band] ** order)
    if c.rng.random() < .3: # coefficients of the largest scale
        coeff = x * .1 / (dts * ref.eig[1] ** order)
    c.note(dt=repr(step), t0=repr(t0), order=order, coeff=coeff)
    cb = None
    if c.rng.random() < .35:
        cb = ref.random(c.rng, w.band, 0, 1., q)
        c.note(background=True)
    return w, c_pv, q, dts, step, t0, order, coeff, cb


def _model(c, force, order, coeff, bg):
    kw = {}
    if bg is not None:
        kw["diffusion_bg"] = bg
    how = int(c.rng.integers(3))
    if how == 0:
        return bt.BarotropicModel(force, order, coeff, **kw)
    if how == 1:
        return bt.BarotropicModel(rhs=force, diffusion_coeff=coeff, diffusion_order=order, **kw)
    if order == 2:
        return bt.BarotropicModel(force, diffusion_coeff=coeff, **kw)
    return bt.BarotropicModel(force, order, coeff, **kw)


def _diffuse(w, cp, dts, coeff, order, cb):
    if cb is None:
        return w.ref.diffuse(cp, dts, coeff, order)
    b = w.ref.truncate(cb, w.ntrunc)
    return b + w.ref.diffuse(cp - b, dts, coeff, order)


def _make(c, w, t, cp):
    pv = w.ref.synth(cp)
    return bt.State(w.grid, t, pv=pv) if c.rng.random() < .6 else bt.State(w.grid, t, pv_spectral=w.grid.to_spectral(pv))


def _noise(w, q, dts, cp):
    """Single precision noise of the flux divergence over the step."""
    ref = w.ref
    umax = max(np.max(np.hypot(*ref.wind(x - ref.c_fcor()))) for x in cp)
    kn = np.sqrt(ref.eig[min(w.ntrunc, ref.nmax)])
    return TOL * q + dts * (1e-5 * q * umax * kn + 3e-7 * q * q * ref.r * kn)


def _compare(c, w, s, t, cp, tol, msg, like):
    c.check(s.grid is w.grid, f"{msg}: grid")
    c.check(s.time == t and type(s.time) is type(t), f"{msg}: time {s.time!r}, expected {t!r}")
    c.close(s.pv, w.ref.synth(w.ref.truncate(cp, w.ntrunc)), f"{msg}: PV", atol=tol)
    c.event("steps compared")


def steps(c):
    w, c_pv, q, dts, step, t0, order, coeff, cb = _setup(c)
    ref = w.ref
    force, cforce = _forcing(c, w, q, dts)
    bg = None if cb is None else ref.synth(cb)
    m = _model(c, force, order, coeff, bg)
    if c.desc["forcing"] == "int":
        q = max(q, dts) # tendency of one per second
    # Euler
    s0 = _make(c, w, t0, c_pv[0])
    want = _diffuse(w, c_pv[0] + dts * _tendency(w, c_pv[0], cforce), dts, coeff, order, cb)
    tol = _noise(w, q, dts, c_pv)
    got = m.euler(s0, step)
    _compare(c, w, got, t0 + step, want, tol, "Euler step", s0)
    # Leapfrog from two independent states
    s1 = _make(c, w, t0 + step, c_pv[1])
    a = pick(c.rng, [None, None, 0., .2, .05, .5, 1., 0, .01])
    c.note(filter=a)
    want = _diffuse(w, c_pv[0] + 2 * dts * _tendency(w, c_pv[1], cforce), 2 * dts, coeff, order, cb)
    if a is None:
        now, new = m.leapfrog(s0, s1)
        a = .2
    elif c.rng.random() < .5:
        now, new = m.leapfrog(s0, s1, a)
    else:
        now, new = m.leapfrog(s0, s1, filter_parameter=a)
    _compare(c, w, new, s1.time + step, want, 2 * tol, "leapfrog step", s0)
    _compare(c, w, now, s1.time, (1 - 2 * a) * c_pv[1] + a * (c_pv[0] + w.ref.truncate(want, w.ntrunc)), 2 * tol, "filtered state", s0)
    # signal that the oracle discriminates
    moved = np.max(np.abs(ref.synth(want - c_pv[0])))
    if moved > 20 * tol:
        c.event("steps with visible tendency")


def defaults(c):
    """Default diffusion is of order 2 with 1e15 m⁴/s and no forcing."""
    nlon = pick(c.rng, [20, 24, 36, 40])
    w = world(c, nlon=nlon, radii=[EARTH_R, 3e6, 1e7], omegas=[0., 1e-9], truncate=.3)
    ref = w.ref
    cp = ref.random(c.rng, w.band, 0, .3, 1e-9) + ref.c_fcor()
    dts = .5 / (1e15 * ref.eig[w.band] ** 2) * float(c.rng.uniform(.3, 3))
    low = ref.random(c.rng, max(1, min(ref.nmax // 2, w.band)), 0, .3, 1e-9) + ref.c_fcor()
    # keep advection negligible or exactly representable
    umax = np.max(np.hypot(*ref.wind(low - ref.c_fcor())))
    scale = min(1., .3 / (dts * (umax * np.sqrt(ref.eig[w.band]) + 1e-30)))
    low = (low - ref.c_fcor()) * scale + ref.c_fcor()
    c.note(dt=dts)
    q = np.max(np.abs(ref.synth(low)))
    m = bt.BarotropicModel()
    s0 = _make(c, w, 0., low)
    tend = _tendency(w, low, lambda x: 0.)
    want = ref.diffuse(low + dts * tend, dts, 1e15, 2)
    tol = _noise(w, q, dts, [low])
    _compare(c, w, m.euler(s0, dts), dts, want, tol, "Euler step with default diffusion", s0)
    s1 = _make(c, w, dts, low)
    want2 = ref.diffuse(low + 2 * dts * tend, 2 * dts, 1e15, 2)
    now, new = m.leapfrog(s0, s1)
    _compare(c, w, new, 2 * dts, want2, 2 * tol, "leapfrog step with default diffusion", s0)
    _compare(c, w, now, dts, .8 * w.ref.truncate(low, w.ntrunc) - .2 * low + .2 * (low + want2), 2 * tol, "filtered state", s0)
    if np.max(np.abs(ref.synth(want - low))) > 20 * tol:
        c.event("default diffusion visible")


CASES = [(steps, 120, 4000), (defaults, 20, 400)]
REQUIRED_EVENTS = {"steps compared": 250, "steps with visible tendency": 60, "default diffusion visible": 8}
