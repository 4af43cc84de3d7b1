"""C35: positional, keyword and omitted arguments of every public operation."""
import datetime as dt
import numpy as np, barotropic as bt
import matplotlib.pyplot as plt
from lib.gen import *
from checks.c12 import build, HOW

RULE = "a case is an operation with random values of its documented parameters: the call with all parameters by name is compared with calls that pass a random prefix by position and omit a random subset of those at their documented defaults"

D = bt.diagnostics
NOTHING = object()


def same(a, b):
    if isinstance(a, bt.State):
        return isinstance(b, bt.State) and a.time == b.time and a.grid == b.grid and same(a.pv, b.pv)
    if isinstance(a, (tuple, list, bt.StateList)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, "identical"):
        return a.identical(b)
    if isinstance(a, np.ndarray) or np.isscalar(a):
        if isinstance(b, (tuple, list, bt.State, bt.StateList)):
            return False
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind not in "iufcb":
            return bool(np.all(a == b))
        fin = np.isfinite(a)
        scale = np.max(np.abs(a[fin])) if fin.any() else 0.
        return bool(np.all(fin == np.isfinite(b)) and np.all(a[~fin & ~np.isnan(a)] == b[~fin & ~np.isnan(a)]) and np.all(np.abs(a[fin] - b[fin]) <= 1e-9 * scale))
    return a == b




def picture(fig):
    """The pixels of a figure."""
    fig = plt.gcf() if fig is None else fig
    fig.set_dpi(40)
    fig.canvas.draw()
    out = np.asarray(fig.canvas.buffer_rgba()).astype(np.int64)
    plt.close(fig)
    return out


def state_of(c, g, ref, band):
    return bt.State.from_vorticity(g, float(c.rng.integers(0, 50)) * 3600., ref.synth(ref.random(c.rng, band, 0, 1., vort_scale(ref))))


def operations(c, w):
    """name -> (function, [(parameter, value)] of required ones, [(parameter, default, other values)] of optional ones)"""
    rng, g, ref = c.rng, w.grid, w.ref
    s, s2 = state_of(c, g, ref, w.band), state_of(c, g, ref, w.band)
    f = rng.normal(size=g.shape)
    prof = rng.normal(size=g.nlat)
    t = float(rng.integers(1, 9)) * 600.
    u = 20 * np.cos(g.phi2) + rng.normal()
    dt_ = 2. ** int(np.floor(np.log2(.1 / (vort_scale(ref) * 20 + abs(ref.omega)))))
    K = lambda q: (q, "sptrapz", ["boxcount"])
    spec = g.to_spectral(f)
    region = g.region[45:-45, 30:200]
    levels = np.linspace(-2, 2, 11)
    model = bt.BarotropicModel(diffusion_coeff=.001 / (dt_ * ref.eig[w.band] ** 2))
    nxt = model.euler(s, dt_)
    states = bt.StateList([s, s2])
    ks = bt.diagnostics.stationary_wavenumber(s)
    orog = lambda term: term(s)
    ft = float(rng.uniform(-50, 50))
    ops = {
        "Grid": (lambda **k: k, None, None),
        "State": (bt.State, [("grid", g), ("time", t)], [("pv", NOTHING, [f])]),
        "State.from_wind": (bt.State.from_wind, [("grid", g), ("time", t), ("u", u), ("v", f)], []),
        "State.from_vorticity": (bt.State.from_vorticity, [("grid", g), ("time", t), ("vorticity", f)], []),
        "init.motionless": (bt.init.motionless, [("grid", g)], [("time", 0., [t])]),
        "init.zonally_symmetric u": (lambda *a, **k: bt.init.zonally_symmetric(*a, **k), [("grid", g)], [("time", 0., [t]), ("u", NOTHING, [prof])]),
        "init.solid_body_rotation": (bt.init.solid_body_rotation, [("grid", g)], [("time", 0., [t]), ("amplitude", 15., [ft])]),
        "init.gaussian_jet": (bt.init.gaussian_jet, [("grid", g)], [("time", 0., [t]), ("amplitude", 20., [ft]), ("center_lat", 45., [-30., 10.]), ("stdev_lat", 5., [12.])]),
        "init.held_1985": (bt.init.held_1985, [("grid", g)], [("time", 0., [t]), ("A", 25., [ft]), ("B", 30., [10.]), ("C", 300., [50.])]),
        "derivative_meridional": (g.derivative_meridional, [("f", pick(rng, [f, prof]))], [("order", 4, [2])]),
        "solve_poisson": (g.solve_poisson, [("rhs_grid", f)], [("op_add", 0., [-1. / ref.r ** 2])]),
        "solve_poisson_spectral": (g.solve_poisson_spectral, [("rhs_spec", spec)], [("op_add", 0., [-1. / ref.r ** 2])]),
        "solve_diffusion": (g.solve_diffusion, [("field_grid", f), ("coeff", 1e-3 * ref.r ** 2), ("dt", 2.)], [("order", 1, [2])]),
        "solve_diffusion_spectral": (g.solve_diffusion_spectral, [("field_spectral", spec), ("coeff", 1e-3 * ref.r ** 2), ("dt", 2.)], [("order", 1, [2])]),
        "wind": (g.wind, [("vorticity", spec), ("divergence", 0 * spec)], []),
        "vorticity": (g.vorticity, [("u", u), ("v", f)], []),
        "divergence": (g.divergence, [("u", u), ("v", f)], []),
        "vorticity_divergence": (g.vorticity_divergence, [("u", u), ("v", f)], []),
        "gradient": (g.gradient, [("f", f)], []),
        "laplace": (g.laplace, [("f", f)], []),
        "mean": (g.mean, [("field", f)], [("axis", None, ["meridional", "zonal"])]),
        "mean region": (g.mean, [("field", f)], [("axis", None, [None]), ("region", None, [region])]),
        "quad": (g.quad, [("y", f)], [("z", None, [rng.normal(size=g.shape)]), K("method")]),
        "quad_meridional": (g.quad_meridional, [("y", f)], [("z", None, [rng.normal(size=g.shape)]), K("method")]),
        "zonalize": (g.zonalize, [("field", f)], [("levels", None, [levels]), ("interpolate", True, [False]), ("quad", "sptrapz", ["boxcount"])]),
        "interpolate_meridional": (g.interpolate_meridional, [("field", prof[1:-1]), ("lat", g.lat[1:-1]), ("pole_values", (1., 2.))], [("kind", "linear", ["nearest", "cubic"])]),
        "filter_meridional": (g.filter_meridional, [("field", f), ("window", pick(rng, ["hann", "boxcar"])), ("width", 60.)], []),
        "filter_meridional weights": (g.filter_meridional, [("field", f), ("window", np.array([.25, .5, .25]))], [("width", None, [None])]),
        "filter_zonal": (g.filter_zonal, [("field", f), ("window", pick(rng, ["hann", "boxcar"])), ("width", 60.)], []),
        "filter_zonal weights": (g.filter_zonal, [("field", f), ("window", np.array([.25, .5, .25]))], [("width", None, [None])]),
        "fawa": (D.fawa, [("pv_or_state", s.pv), ("grid", g)], [("levels", None, [np.linspace(s.pv.min(), s.pv.max(), 9)[1:-1]]), ("interpolate", True, [False]), ("quad", "sptrapz", ["boxcount"])]),
        "falwa": (D.falwa, [("pv_or_state", s.pv), ("grid", g)], [("levels", None, [np.linspace(s.pv.min(), s.pv.max(), 9)[1:-1]]), ("interpolate", True, [False]), ("quad", "sptrapz", ["boxcount"])]),
        "falwa of a state": (D.falwa, [("pv_or_state", s)], [("grid", None, [None]), ("levels", None, [None]), ("interpolate", True, [False]), ("quad", "sptrapz", ["boxcount"])]),
        "dominant_wavenumber_fourier": (D.dominant_wavenumber_fourier, [("field", f), ("grid", g)], [("smooth", ("boxcar", 10), [None, ("hann", 45.), ("boxcar", 30.)]), ("wavenumber_range", (1, 20), [(2, 5)])]),
        "dominant_wavenumber_wavelet": (D.dominant_wavenumber_wavelet, [("field", f), ("grid", g)], [("smooth", ("hann", 40, 10), [None, ("boxcar", 30., 30.)])]),
        "filter_by_wavenumber": (D.filter_by_wavenumber, [("field", f), ("wavenumber", np.full(g.shape, 3.))], []),
        "envelope_hilbert": (D.envelope_hilbert, [("field", f)], [("wavenumber_range", (2, 10), [(1, 4)])]),
        "stationary_wavenumber": (D.stationary_wavenumber, [("u_or_state", s.u.mean(axis=1)), ("grid", g)], [("order", 4, [2]), ("min_u", .001, [1.]), ("kind", "complex", ["real"])]),
        "stationary_wavenumber of a state": (D.stationary_wavenumber, [("u_or_state", s)], [("grid", None, [None]), ("order", 4, [2]), ("min_u", .001, [1.]), ("kind", "complex", ["real"])]),
        "extract_ks_waveguides": (D.extract_ks_waveguides, [("ks_or_state", ks), ("k", 3.), ("grid", g)], []),
        "extract_ks_waveguides of a state": (D.extract_ks_waveguides, [("ks_or_state", s), ("k", 3.)], [("grid", None, [None])]),
        "euler": (model.euler, [("state_now", s), ("dt", dt_)], []),
        "leapfrog": (model.leapfrog, [("state_old", s), ("state_now", nxt)], [("filter_parameter", .2, [0., .1])]),
        "run": (model.run, [("state_init", s), ("dt", dt_), ("tend", s.time + 4.5 * dt_)], [("save_every", 0, [2 * dt_])]),
        "State.run": (lambda *a, **k: s.run(model, *a, **k), [("dt", dt_), ("tend", s.time + 4.5 * dt_)], [("save_every", 0, [2 * dt_])]),
        "StateList.run": (lambda *a, **k: states.run(model, *a, **k), [("dt", dt_), ("tend", s.time + 4.5 * dt_)], [("save_every", 0, [2 * dt_])]),
        "BarotropicModel": (lambda *a, **k: bt.BarotropicModel(*a, **k).euler(s, dt_), [], [
            ("rhs", None, [lambda st: 1e-3 * st.pv / dt_]), ("diffusion_order", 2, [1]), ("diffusion_coeff", 1e15, [1e13]), ("diffusion_bg", None, [s2.pv])]),
        "as_dataset": (bt.io.as_dataset, [("states", states)], [("fields", ("u", "v"), ["pv", ["u"]]), ("concat_dim", "time", ["run"])]),
        "StateList.as_dataset": (states.as_dataset, [], [("fields", ("u", "v"), ["pv", ["u"]]), ("concat_dim", "time", ["run"])]),
        "LinearRelaxation": (lambda *a, **k: bt.rhs.LinearRelaxation(*a, **k)(s), [("rate", 1e-5), ("reference_pv", s2.pv)], [("mask", None, [None])]),
        "TimedOffSwitch": (lambda *a, **k: bt.rhs.TimedOffSwitch(*a, **k)(s), [("tend", s.time + float(pick(rng, [-1, 0, 1])))], []),
        "GaussianMountain": (lambda *a, **k: orog(bt.rhs.GaussianMountain(*a, **k)), [], [
            ("height", 1500, [700.]), ("center", (30., 45.), [(200., -20.)]), ("stdev", (7.5, 20.), [(15., 15.), 12.])]),
        "ZonalSineMountains": (lambda *a, **k: orog(bt.rhs.ZonalSineMountains(*a, **k)), [], [
            ("height", 1500, [700.]), ("center_lat", 45., [-20.]), ("stdev_lat", 10., [15.]), ("wavenumber", 4, [2])]),
        "Orography": (lambda *a, **k: orog(bt.rhs.Orography(*a, **k)), [("lon", np.arange(0, 361, 30.)), ("lat", np.linspace(-90, 90, 7)), ("orography", np.abs(rng.normal(size=(7, 13))) * 500)], [
            ("scale_height", 10000., [8000.]), ("wind", ("act", 1.), [("zon", .7), ("sbr", 15.)]), ("fcor_ref", None, [1e-4])]),
        "mountain in a flow": (lambda *a, **k: orog(bt.rhs.GaussianMountain(1000., (100., 30.), 15., *a, **k)), [], [], [
            ("scale_height", 10000., [8000.]), ("wind", ("act", 1.), [("zon", .7), ("sbr", 15.)]), ("fcor_ref", None, [1e-4])]),
        "sine mountains in a flow": (lambda *a, **k: orog(bt.rhs.ZonalSineMountains(1000., 35., 15., 3, *a, **k)), [], [], [
            ("scale_height", 10000., [8000.]), ("wind", ("act", 1.), [("zon", .7), ("sbr", 15.)]), ("fcor_ref", None, [1e-4])]),
        "symmetric_levels": (bt.plot.symmetric_levels, [("x", f)], [("n", 10, [5, 7]), ("ext", None, [3.])]),
        "roll_lon": (lambda *a, **k: bt.plot.roll_lon(*a, **k)[0](f), [("lon", g.lon)], [("center", 180, [0, 90])]),
    }
    # only by keyword
    for name in KEYWORD_ONLY:
        fn, req, _, kwonly = ops[name]
        ops[name] = (fn, [], kwonly)
    del ops["Grid"]
    return ops


KEYWORD_ONLY = {"mountain in a flow", "sine mountains in a flow"}


# options that do not change every result
NO_EFFECT = {"diffusion_coeff", "diffusion_bg", "diffusion_order", "filter_parameter", "legfunc", "smooth", "min_u", "kind", "k_waveguides", "klim_bounds", "legend_loc"}


def exercise(c, name, fn, req, opt, prepare=lambda x: x):
    rng = c.rng
    values = {}
    for p, default, others in opt:
        values[p] = default if not others or rng.random() < .6 else pick(rng, others)
    if name == "init.zonally_symmetric u" and values["u"] is NOTHING:
        values["u"] = opt[1][2][0]
    if name == "State" and values["pv"] is NOTHING:
        values["pv"] = opt[0][2][0]
    full = {**dict(req), **values}
    full = {k: v for k, v in full.items() if v is not NOTHING}
    shown = {k: v for k, v in values.items() if not isinstance(v, np.ndarray)}
    c.note(op=name, values={k: repr(v)[:60] for k, v in shown.items()})
    ok, want = c.works(lambda: prepare(fn(**full)), f"{name} with all parameters by name")
    if not ok:
        return
    order = [p for p, _ in req] + [p for p, _, _ in opt]
    defaults = {p: d for p, d, _ in opt}
    for trial in range(2):
        # everything by position first, then random mixtures
        npos = (len(order) if rng.random() < .4 else int(rng.integers(0, len(order) + 1))) if name not in KEYWORD_ONLY else 0
        args = [full[p] for p in order[:npos]]
        kw = {}
        omitted = []
        for p in order[npos:]:
            if p in defaults and full[p] is defaults[p] and (trial == 1 or rng.random() < .7):
                omitted.append(p); continue
            kw[p] = full[p]
        kw = {k: kw[k] for k in [list(kw)[i] for i in rng.permutation(len(kw))]}
        what = f"{name}: {npos} of {order} by position, {sorted(kw)} by name, {omitted} at their defaults"
        ok, got = c.works(lambda: prepare(fn(*args, **kw)), what)
        if ok:
            c.check(same(want, got), f"{what}: not the result of the call with all parameters by name ({shown})")
        c.event("calls")
        c.event("omitted arguments", len(omitted))
    # a value other than the default must not be lost on the way
    effective = [p for p, d, others in opt if others and any(o is not None or d is not None for o in others) and p not in NO_EFFECT and not (name.startswith("stationary") and p == "order")]
    if not effective:
        return
    p = pick(rng, effective)
    d, others = next((d, o) for q, d, o in opt if q == p)
    if d is NOTHING:
        return
    base = {k: v for k, v in full.items() if k != p}
    a, b = {**base, p: d}, {**base, p: pick(rng, [o for o in others if o is not None or d is not None])}
    ok, both = c.works(lambda: (prepare(fn(**a)), prepare(fn(**b))), f"{name} with and without {p}")
    if ok:
        c.check(not same(*both), f"{name}: {p}={repr(b[p])[:80]} gives the same result as {p}={repr(d)[:80]} ({shown})")
    c.event("effects of options")


def calls(c):
    w = world(c, [20, 24, 36, 48], radii=[EARTH_R, 3389.5e3], omegas=[EARTH_W, 1e-4], truncate=.2, legfunc=False)
    ops = operations(c, w)
    names = list(ops)
    for k in range(6):
        name = names[(c.index * 6 + k) % len(names)]
        c.event(name)
        exercise(c, name, *ops[name])


def grids(c):
    n = int(2 * c.rng.integers(8, 30))
    opt = [("resolution", 2.5, [360. / n]), ("rsphere", 6371.2e3, [1e6]), ("omega", 7.292e-5, [1e-4]), ("ntrunc", None, [6]), ("legfunc", "stored", ["computed"])]
    f = np.cos(np.linspace(0, 3, 73))[:, None] * np.ones((1, 144))
    def facts(g):
        x = np.random.default_rng(1).normal(size=g.shape)
        return (g.lat, g.lon, float(g.rsphere), float(g.omega), g.to_grid(g.to_spectral(x)), repr(g), g.fcor2, g.gridpoint_area)
    exercise(c, "Grid", bt.Grid, [], opt, facts)


def plots(c):
    w = world(c, [36, 48], radii=[EARTH_R], omegas=[EARTH_W], truncate=0., legfunc=False)
    s = state_of(c, w.grid, w.ref, 6)
    hemi = ("hemisphere", "both", ["N", "S"])
    lon = ("center_lon", 180, [0, 90])
    ops = {
        "summary": [("figsize", (11, 7), [(9, 6)]), hemi, lon, ("pv_cmap", "viridis", ["plasma"]), ("pv_max", None, [3e-4]), ("v_max", None, [80.])],
        "wave_activity": [("figsize", (11, 7), [(9, 6)]), hemi, lon, ("falwa_cmap", "YlOrRd", ["plasma"])],
        "rwp_diagnostics": [("figsize", (8, 10.5), [(9, 6)]), hemi, lon, ("v_max", None, [60.]), ("rwp_max", None, [60.]), ("rwp_cmap", "YlOrRd", ["plasma"])],
        "waveguides": [("k_waveguides", None, [3, [2, 4]]), hemi, ("klim_bounds", (-5, 15), [(-3, 8)]), ("legend_loc", None, [None])],
    }
    name = list(ops)[c.index % 4]
    try:
        if c.rng.random() < .6:
            exercise(c, "plot." + name, getattr(bt.plot, name), [("state", s)], ops[name], picture)
        else:
            exercise(c, "State.plot." + name, getattr(s.plot, name), [], ops[name], picture)
    finally:
        plt.close("all")
    c.event("plots")


CASES = [(calls, 40, 1000), (grids, 6, 100), (plots, 3, 40)]
REQUIRED_EVENTS = {"calls": 300, "omitted arguments": 150, "plots": 6, "effects of options": 100}
