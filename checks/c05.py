"""C05: Poisson/Helmholtz and diffusion solvers."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations
from lib.monitor import watch

RULE = "a case is a configuration, a right-hand side or field and solver parameters; expectation computed per total wavenumber in float64"
TOL = 3e-5


def poisson(c):
    w = world(c, NLON_SMALL + NLON_MID)
    g, ref = w.grid, w.ref
    eig = ref.eig
    kind = pick(c.rng, ["zero", "zero", "positive", "positive", "tiny", "huge", "negative"])
    k = int(c.rng.integers(1, w.band))
    op = {"zero": 0., "positive": eig[k] * float(c.rng.uniform(.5, 1.5)), "tiny": eig[1] * 1e-3, "huge": eig[w.band] * 100,
          "negative": -.5 * (eig[k] + eig[k + 1])}[kind]
    mean = float(pick(c.rng, [0., 1., -3.]))
    amp = float(pick(c.rng, [1., 1e-5, 1e3]))
    c.note(op=op, kind_op=kind, mean=mean, amp=amp)
    co = ref.random(c.rng, w.band, 1, float(c.rng.uniform(0, 2)), amp)
    co[0, 0] = mean * amp * np.sqrt(4 * np.pi)
    rhs = ref.synth(co)
    sol = np.zeros_like(co)
    sol[1:] = -co[1:] / (eig[1:, None] + op)
    if op != 0:
        sol[0] = -co[0] / op
    want = ref.synth(sol)
    # an error of the right-hand side's float32 representation is amplified at most by the largest resolvent factor
    factor = np.max(1 / np.abs(eig[1:] + op)) if op == 0 else np.max(1 / np.abs(eig + op))
    tol = TOL * max(np.max(np.abs(want)), 3e-2 * factor * np.max(np.abs(rhs)))
    calls = [("solve_poisson", (lambda: g.solve_poisson(rhs, op)) if c.rng.random() < .5 else (lambda: g.solve_poisson(rhs, op_add=op))),
             ("solve_poisson_spectral", lambda: g.to_grid(g.solve_poisson_spectral(g.to_spectral(rhs), op_add=op)))]
    if op == 0:
        calls += [("solve_poisson default", lambda: g.solve_poisson(rhs)), ("solve_poisson_spectral default", lambda: g.to_grid(g.solve_poisson_spectral(g.to_spectral(rhs))))]
    for name, f in calls:
        got = f()
        c.close(got, want, f"{name} with constant {op:g}", atol=tol)
        back = np.asarray(g.laplace(got), float) - op * np.asarray(got, float)
        target = rhs - (mean * amp if op == 0 else 0.)
        c.close(back, target, f"operator applied to the solution of {name}", atol=TOL * 20 * (np.max(np.abs(rhs)) + (abs(op) + eig[w.band] * .05) * np.max(np.abs(want))))
        if op == 0:
            m = float(np.sum(np.asarray(got, float) * g.gridpoint_area[:, None]) / (np.sum(g.gridpoint_area) * g.nlon))
            exact = float(np.sum(want * g.gridpoint_area[:, None]) / (np.sum(g.gridpoint_area) * g.nlon))
            c.close(m, exact, "mean of the Poisson solution", atol=tol)
    c.event("poisson solves")


def _diffusion_params(c, w):
    rng, eig = c.rng, w.ref.eig
    order = int(pick(rng, [1, 1, 2, 2, 3, 4, 5, 6]))
    k = int(rng.integers(1, w.band + 1))
    strength = float(pick(rng, [1e-3, .1, 1., 10., 1e4]))
    dt = pick(rng, [1, 900, 900., 86400., np.float64(600.), .01])
    coeff = strength / float(dt) / float(eig[k]) ** order
    if rng.random() < .08:
        coeff = 0.
    if rng.random() < .05:
        dt = 0.
    c.note(order=order, coeff=coeff, dt=float(dt), damped_like=k)
    return order, coeff, dt


def diffusion(c):
    w = world(c, NLON_SMALL + NLON_MID, radii=RADII[:-1])
    g, ref = w.grid, w.ref
    order, coeff, dt = _diffusion_params(c, w)
    if coeff * float(dt) * ref.eig[w.band] ** order > 1e30:
        coeff = 0. # beyond float32 even for a result of zero
    co = ref.random(c.rng, w.band, 0, float(c.rng.uniform(0, 1.5)), float(pick(c.rng, [1., 1e-5])))
    f = ref.synth(co)
    want = ref.synth(ref.diffuse(co, float(dt), coeff, order))
    t = dict(atol=TOL * np.max(np.abs(f)))
    c.event("diffusion steps"); c.event(f"diffusion order {order}")
    c.close(g.solve_diffusion(f, coeff, dt, order), want, f"solve_diffusion order {order}", **t)
    c.close(g.to_grid(g.solve_diffusion_spectral(g.to_spectral(f), dt=dt, coeff=coeff, order=order)), want, f"solve_diffusion_spectral order {order}", **t)
    if order == 1:
        c.close(g.solve_diffusion(f, coeff, dt), want, "default order is 1", **t)
        c.close(g.to_grid(g.solve_diffusion_spectral(g.to_spectral(f), coeff, dt)), want, "default order is 1 (spectral)", **t)


def single_degree(c):
    """Damping factor of one degree, relative to that component itself."""
    w = world(c, NLON_SMALL, radii=RADII[:-1])
    g, ref = w.grid, w.ref
    order, coeff, dt = _diffusion_params(c, w)
    n = int(c.rng.integers(0, w.band + 1)); m = int(c.rng.integers(0, n + 1))
    c.note(n=n, m=m)
    x = float(dt) * coeff * ref.eig[n] ** order
    if x > 1e4:
        coeff *= 1e4 / x
    fac = 1 / (1 + float(dt) * coeff * ref.eig[n] ** order)
    co = ref.zeros(); co[n, m] = 1. if m == 0 else np.exp(1j)
    f = ref.synth(co)
    if float(dt) * coeff * ref.eig[w.band] ** order < 1e30:
        got = g.solve_diffusion(f, coeff, dt, order)
        c.close(np.asarray(got, float) / fac, f, f"factor of wavenumber {n} at order {order}", rtol=2e-4 if fac > 1e-2 else 3e-2)
        c.check(np.max(np.abs(got)) <= np.max(np.abs(f)) * (1 + 1e-5), "diffusion does not amplify")
    c.event("damping factors")


def mean_and_bounds(c):
    """Arbitrary fields: mean kept, spectrum shrinks towards zero without sign change."""
    w = world(c, NLON_SMALL, radii=RADII[:-1])
    g = w.grid
    order, coeff, dt = _diffusion_params(c, w)
    if coeff * float(dt) * w.ref.eig[-1] ** order > 1e25:
        coeff = 0.
    f = any_field(c, g.shape)
    F = np.asarray(g.to_spectral(f))
    D = np.asarray(g.solve_diffusion_spectral(F, coeff, dt, order))
    s = np.max(np.abs(F)) + 1e-300
    c.check(np.isfinite(D).all(), "finite field stays finite")
    c.check(D.shape == F.shape, "shape of the spectrum")
    c.close(D[0], F[0], "mean is kept", atol=1e-5 * s)
    for part in ("real", "imag"):
        a, b = getattr(F, part).astype(float), getattr(D, part).astype(float)
        c.check(np.all(np.abs(b) <= np.abs(a) * (1 + 1e-5) + 1e-7 * s), "no component grows")
        c.check(np.all(a * b >= -1e-7 * s * s), "no component flips")
    c.event("arbitrary fields")


def inside_a_run(c):
    """Every solver call made by the model and the state obeys its contract, too."""
    w = earth(c, [16, 20, 24])
    g, ref = w.grid, w.ref
    order = int(pick(c.rng, [1, 2, 3, 4]))
    coeff = 1. / 3600. / ref.eig[-1] ** order
    c.note(order=order)
    n_of = _degrees(g)
    def diff_post(args, kwargs, out):
        a = dict(zip(("self", "field_spectral", "coeff", "dt", "order"), args)); a.update(kwargs)
        k = n_of * (n_of + 1.) / a["self"].rsphere ** 2
        want = np.asarray(a["field_spectral"], complex) / (1 + float(a["dt"]) * float(a["coeff"]) * k ** a.get("order", 1))
        c.close(out, want, "diffusion inside a model step", atol=TOL * np.max(np.abs(want)))
        c.event("solver calls inside runs")
    def poisson_post(args, kwargs, out):
        a = dict(zip(("self", "rhs_spec", "op_add"), args)); a.update(kwargs)
        k = n_of * (n_of + 1.) / a["self"].rsphere ** 2 + a.get("op_add", 0.)
        rhs = np.asarray(a["rhs_spec"], complex)
        c.close(np.asarray(out)[1:], -rhs[1:] / k[1:], "streamfunction solve", rtol=TOL)
        c.event("solver calls inside runs")
    with watch(bt.Grid, "solve_diffusion_spectral", diff_post), watch(bt.Grid, "solve_poisson_spectral", poisson_post):
        s = bt.State.from_vorticity(g, 0., ref.synth(flow(c, w, 8)))
        last, steps = bt.BarotropicModel(diffusion_order=order, diffusion_coeff=coeff).run(s, 1200., 6 * 1200., save_every=2400)
        for x in steps:
            c.check(np.isfinite(x.pv).all() and np.isfinite(x.streamfunction).all(), "fields stay finite")


def _degrees(g):
    """Total wavenumber of every spectral coefficient, measured by transforming the eigenfunctions of the Laplacian."""
    T = g.nlat - 1
    # m-major triangular order, verified against the library's own transform
    n = np.concatenate([np.arange(m, T + 1) for m in range(T + 1)])
    return n.astype(float)


def array_kinds(c):
    w = world(c, NLON_SMALL)
    g = w.grid
    f = any_field(c, g.shape, 10. ** float(c.rng.uniform(-6, 3)))
    op = pick(c.rng, [0., 2. / g.rsphere ** 2, 1e3 / g.rsphere ** 2])
    same_for_representations(c, lambda x: g.solve_poisson(x, op), [f], "solve_poisson", rtol=1e-4)
    order, k = int(pick(c.rng, [1, 2, 3])), float(pick(c.rng, [.01, 1., 100.]))
    same_for_representations(c, lambda x: g.solve_diffusion(x, k * g.rsphere ** (2 * order) / 600., 600., order), [f], "solve_diffusion", rtol=1e-4, n=2)
    a, b = g.to_spectral(c.rng.normal(size=g.shape)), g.to_spectral(c.rng.normal(size=g.shape))
    for name, F in (("solve_poisson_spectral", lambda x: g.solve_poisson_spectral(x, op)), ("solve_diffusion_spectral", lambda x: g.solve_diffusion_spectral(x, k * g.rsphere ** 2, 1., 1))):
        want = np.array(F(b.copy()))
        buf = np.array(a); F(buf); buf[...] = b
        c.close(F(buf), want, f"{name} with a reused buffer", rtol=1e-5)
    c.event("array kinds")


CASES = [(array_kinds, 30, 800), (poisson, 60, 2000), (diffusion, 80, 2500), (single_degree, 60, 2000), (mean_and_bounds, 30, 900), (inside_a_run, 6, 60)]
REQUIRED_EVENTS = {"poisson solves": 40, "diffusion steps": 60, "damping factors": 40, "arbitrary fields": 20}
