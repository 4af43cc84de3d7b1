"""C19: invariants and symmetries of unforced integrations."""
import datetime as dt
import numpy as np, barotropic as bt
from lib.gen import *

RULE = "a case is a planet, grid, initial flow, step and length; conserved quantities, symmetric twins and theoretical phase speeds are observed along the run"


def mean(g, f):
    w = g.gridpoint_area[:, None]
    return float(np.sum(np.asarray(f, float) * w) / (np.sum(w) * g.nlon))


def ref_mean(ref, f):
    """Global mean by Clenshaw-Curtis-type exact quadrature through the spectrum."""
    return float((ref.analysis(f)[0, 0] * ref.P[0][0, 0]).real)


def stable_dt(ref, c_vo, low, frac=.1):
    umax = np.max(np.hypot(*ref.wind(c_vo)))
    return frac / (umax * np.sqrt(ref.eig[low]) + abs(ref.omega) + 1e-30)


def _spectra(s, w):
    return w.ref.analysis(np.asarray(s.pv, float))


def conservation(c):
    w = world(c, [24, 28, 32, 36, 40], truncate=.3)
    ref, g = w.ref, w.grid
    deg = int(c.rng.integers(3, max(4, w.band // 2)))
    c_vo = ref.random(c.rng, deg, 1, 1., vort_scale(ref))
    cp = c_vo + ref.c_fcor()
    if c.rng.random() < .3:
        cp[0, 0] = vort_scale(ref) * c.rng.normal()
    step = stable_dt(ref, c_vo, deg, .03)
    n = int(c.rng.integers(8, 30))
    diff = pick(c.rng, [0., 0., .01, .3, 10.])
    order = pick(c.rng, [1, 2, 3])
    c.note(degree=deg, dt=step, n=n, diffusion=diff, order=order)
    m = bt.BarotropicModel(None, order, diff / (n * step * ref.eig[w.band] ** order))
    s0 = bt.State(g, 0., pv=ref.synth(cp))
    last, saved = m.run(s0, step, n * step, save_every=step)
    q = np.max(np.abs(ref.synth(cp)))
    umax = np.max(np.hypot(*ref.wind(c_vo)))
    # enstrophy of the flow (degree >= 1), energy
    def budget(s):
        a = _spectra(s, w)
        m0 = a[0, 0].real * ref.P[0][0, 0]
        rel = a - ref.c_fcor()
        wgt = np.full(a.shape[1], .5); wgt[0] = 1.
        p = (np.abs(a[1:]) ** 2 * wgt).sum()
        e = (np.abs(rel[1:]) ** 2 * wgt / ref.eig[1:, None]).sum()
        return m0, p, e
    m0, z0, e0 = budget(s0)
    prev = z0
    for k, s in enumerate(saved):
        mk, zk, ek = budget(s)
        c.close(mk, m0, f"global-mean PV after {k} steps", atol=3e-6 * q * (1 + k * .2))
        c.check(zk <= prev * (1 + 3e-5) + 1e-30, f"enstrophy grows from {prev} to {zk} in step {k} (initially {z0})")
        prev = zk
        if diff == 0.:
            c.check(abs(zk / z0 - 1) < .02 + .002 * k * .1, f"enstrophy {zk} after {k} steps, initially {z0}")
            c.check(abs(ek / e0 - 1) < .03 + 1e-4 * z0 / (e0 * ref.eig[1]) * .01, f"energy {ek} after {k} steps, initially {e0}")
        c.event("budgets")
    c.check(np.isfinite(last.u).all(), "finite wind")


def zonal(c):
    w = world(c, [20, 24, 36, 40, 48], truncate=.3)
    ref, g = w.ref, w.grid
    c_vo = flow(c, w, zonal=True)
    cp = c_vo + ref.c_fcor()
    if c.rng.random() < .3:
        cp[0, 0] = vort_scale(ref)
    q = np.max(np.abs(ref.synth(cp)))
    n = int(c.rng.integers(2, 25))
    step = stable_dt(ref, c_vo, w.band, float(c.rng.uniform(.02, .2)))
    m = bt.BarotropicModel(diffusion_coeff=0.)
    last, saved = m.run(bt.State(g, 0., pv=ref.synth(cp)), step, n * step, 3 * step)
    tol = 1e-5 * (1 + n * .3)
    c.note(dt=step, n=n)
    c.close(last.pv, ref.synth(cp), "zonally symmetric PV stays", atol=tol * q)
    c.close(last.u, ref.wind(c_vo)[0], "zonal wind stays", atol=tol * q * ref.r)
    c.close(last.v, 0 * last.v, "no meridional wind appears", atol=tol * q * ref.r)
    # A flow that equals the diffusion background stays steady with diffusion, too
    m = bt.BarotropicModel(diffusion_coeff=1. / (step * ref.eig[w.band] ** 2), diffusion_bg=ref.synth(cp))
    last, _ = m.run(bt.State(g, 0., pv=ref.synth(cp)), step, n * step)
    c.close(last.pv, ref.synth(cp), "flow equal to the diffusion background stays", atol=tol * q)
    c.event("zonal flows")


def rest(c):
    w = world(c, NLON_SMALL, truncate=.3)
    ref, g = w.ref, w.grid
    n = int(c.rng.integers(1, 12))
    step = pick(c.rng, [600., 3600, 100])
    coeff = pick(c.rng, [0., 1e-3 / (step * ref.eig[w.band] ** 2)])
    c.note(dt=step, n=n)
    last, _ = bt.BarotropicModel(diffusion_coeff=0.).run(bt.init.motionless(g), step, n * step)
    q = 2 * abs(ref.omega) + 1e-300
    c.close(last.pv, ref.f2, "PV at rest", atol=3e-6 * q * (1 + n * .3))
    c.close(last.u, 0 * ref.f2, "no wind appears at rest", atol=3e-6 * q * ref.r * (1 + n))
    c.close(last.v, 0 * ref.f2, "no wind appears at rest", atol=3e-6 * q * ref.r * (1 + n))
    c.event("rest")


def waves(c):
    """Rossby-Haurwitz waves: solid-body rotation plus harmonics of one degree are rigidly rotating solutions."""
    w = world(c, [24, 30, 36, 40, 48], truncate=.2, omegas=[EARTH_W, 1e-4, -5e-5, 7e-6, 0.])
    ref, g = w.ref, w.grid
    N = int(c.rng.integers(2, min(8, w.band // 2) + 1))
    Om = max(abs(ref.omega), 1e-5)
    sb = Om * float(pick(c.rng, [0., .05, -.03, .1])) # angular velocity of the solid-body part
    cw = ref.random(c.rng, N, N, 0., Om * float(c.rng.uniform(.02, .3)))
    # a wave of one or several zonal wavenumbers
    if c.rng.random() < .6:
        m = int(c.rng.integers(1, N + 1))
        keep = np.zeros_like(cw); keep[N, m] = cw[N, m] if abs(cw[N, m]) > 0 else 1.
        pk = np.max(np.abs(ref.synth(keep)))
        cw = keep * (Om * .1 / pk)
    c_sb = ref.c_fcor() * (sb / ref.omega) if ref.omega != 0 else ref.zeros()
    if ref.omega == 0:
        one = RefSphere(ref.nlon, ref.r, 1.).c_fcor()
        c_sb = one * sb
    # d lon / dt of the pattern
    nu = sb - 2 * (ref.omega + sb) / (N * (N + 1))
    c_vo = c_sb + cw
    step = .02 / (abs(nu) * N + np.max(np.hypot(*ref.wind(c_vo))) / ref.r * N + Om * .3)
    n = int(c.rng.integers(20, 60))
    c.note(degree=N, solid_body=sb, dt=step, n=n)
    t = n * step
    if step > 5 and c.rng.random() < .4:
        step = dt.timedelta(seconds=float(int(step)))
        t0 = dt.datetime(2021, 3, 1)
        last, _ = bt.BarotropicModel(diffusion_coeff=0.).run(bt.State.from_vorticity(g, t0, ref.synth(c_vo)), step, t0 + n * step)
        t = (last.time - t0).total_seconds()
    else:
        last, _ = bt.BarotropicModel(diffusion_coeff=0.).run(bt.State.from_vorticity(g, 0., ref.synth(c_vo)), step, t)
        t = last.time
    mm = np.arange(ref.nmax + 1)[None, :]
    want = c_sb + cw * np.exp(-1j * mm * nu * t)
    amp = np.max(np.abs(ref.synth(cw)))
    # amplitude damping of the filter and phase error of the scheme are of order (nu m dt)^2
    q = np.max(np.abs(ref.synth(c_vo + ref.c_fcor())))
    c.close(last.vorticity, ref.synth(want), f"Rossby-Haurwitz wave after {t} s (phase speed {nu} s⁻¹)", atol=.03 * amp + 1e-5 * q * (1 + n * .2))
    moved = np.max(np.abs(ref.synth(want) - ref.synth(c_sb + cw)))
    if moved > .15 * amp:
        c.event("waves that moved visibly")
    c.event("waves")


def linear_waves(c):
    """Weak waves of any degree and order up to the end of the spectrum travel and persist, next to diffusion damping."""
    w = world(c, [24, 30, 36, 40, 48], truncate=1., omegas=[EARTH_W, 1e-4, -5e-5, 7e-6])
    ref, g = w.ref, w.grid
    top = min(w.ntrunc, g.nlat - 5)
    N = top if c.rng.random() < .5 else int(c.rng.integers(1, top + 1))
    m = pick(c.rng, [N, N, 0, 1, int(c.rng.integers(0, N + 1))])
    cw = ref.zeros()
    cw[N, m] = np.exp(1j * c.rng.uniform(0, 6)) if m else pick(c.rng, [1., -1.])
    Om = abs(ref.omega)
    cw *= .01 * Om / np.max(np.abs(ref.synth(cw)))
    nu = -2 * ref.omega / (N * (N + 1))
    step = .02 / (abs(nu) * max(m, 1) + .3 * Om)
    n = int(c.rng.integers(10, 60))
    order, strength = int(pick(c.rng, [1, 2, 3])), float(pick(c.rng, [0., 0., .2]))
    eig = N * (N + 1) / ref.r ** 2
    coeff = strength / (n * step * eig ** order)
    c.note(degree=N, order=m, dt=step, n=n, diffusion=strength)
    # only the wave is diffused, not the planetary vorticity
    last, _ = bt.BarotropicModel(None, order, coeff, ref.f2).run(bt.State.from_vorticity(g, 0., ref.synth(cw)), step, n * step)
    want = cw * np.exp(-1j * m * nu * last.time - strength)
    got = ref.analysis(np.asarray(last.pv, float)) - ref.c_fcor()
    amp = abs(cw[N, m])
    c.check(abs(got[N, m] - want[N, m]) < .03 * amp, f"wave of degree {N}, order {m} after {n} steps: coefficient {got[N, m]}, expected {want[N, m]}")
    if strength == 0.:
        c.close(last.vorticity, ref.synth(want), "field of the wave", atol=.03 * .01 * Om + 2e-6 * Om * (1 + .2 * n))
    c.event("linear waves")


def symmetries(c):
    w = world(c, [20, 24, 28, 36, 40], truncate=.3)
    ref, g = w.ref, w.grid
    low = max(2, w.band // 2)
    c_vo = ref.random(c.rng, low, 1, 1., vort_scale(ref))
    pv = ref.synth(c_vo + ref.c_fcor())
    q = np.max(np.abs(pv))
    n = int(c.rng.integers(1, 12))
    step = stable_dt(ref, c_vo, low, .1)
    coeff = pick(c.rng, [0., .1 / (step * ref.eig[low] ** 2)])
    k = int(c.rng.integers(1, g.nlon))
    c.note(dt=step, n=n, shift=k)
    m = bt.BarotropicModel(diffusion_coeff=coeff)
    run = lambda f: m.run(bt.State(g, 0., pv=f), step, n * step, 2 * step)
    last, saved = run(pv)
    tol = 1e-5 * (1 + n * .5)
    for name, f in (("shift", lambda x, s: np.roll(x, k, axis=1)), ("mirror", lambda x, s: s * x[::-1])):
        last2, saved2 = run(f(pv, -1))
        c.close(last2.pv, f(last.pv, -1), f"{name} of the initial PV", atol=tol * q)
        c.close(last2.u, f(last.u, 1), f"{name}: u", atol=tol * q * ref.r)
        c.close(last2.v, f(last.v, -1), f"{name}: v", atol=tol * q * ref.r)
        c.check(len(saved) == len(saved2), f"{name}: saved states")
        for x, y in zip(saved, saved2):
            c.close(y.pv, f(x.pv, -1), f"{name}: saved PV", atol=tol * q)
        c.event("symmetric runs")


CASES = [(conservation, 40, 1200), (zonal, 30, 900), (rest, 15, 400), (waves, 30, 900), (symmetries, 25, 800), (linear_waves, 25, 800)]
REQUIRED_EVENTS = {"budgets": 200, "zonal flows": 20, "rest": 10, "waves": 20, "waves that moved visibly": 8, "symmetric runs": 30}
