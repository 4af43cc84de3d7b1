"""C15: initial-condition presets."""
import numpy as np, barotropic as bt
from lib.gen import *

RULE = "a case is a planet, grid, preset, its parameters and the way they are passed; expectation is the documented profile and its analytic vorticity"


def profile(kind, phi, p):
    """(u, d(u cos)/dphi / cos) of the documented profile."""
    lat = np.rad2deg(phi)
    s, co = np.sin(phi), np.cos(phi)
    if kind == "sbr":
        u, du = p["amplitude"] * co, -p["amplitude"] * s
    elif kind == "gauss":
        A, l0, sd = p["amplitude"], p["center_lat"], p["stdev_lat"]
        e = lambda x: A * np.exp(-(x - l0) ** 2 / (2. * sd ** 2))
        n, so = e(90.), e(-90.)
        slope = (n - so) / 180. # the straight line through the values at both poles
        u = e(lat) - (so + slope * (lat + 90.))
        du = np.rad2deg(-(lat - l0) / sd ** 2 * e(lat) - slope)
    elif kind == "held":
        A, B, C = p["A"], p["B"], p["C"]
        u = A * co - B * co ** 3 + C * co ** 6 * s ** 2
        du = -A * s + 3 * B * co ** 2 * s + C * (-6 * co ** 5 * s ** 3 + 2 * co ** 7 * s)
    with np.errstate(all="ignore"):
        vo_r = -(du - u * s / co)
    return u, vo_r


def _verify(c, s, g, ref, u, vo_r, time, msg, smooth):
    amp = max(np.max(np.abs(u)), 1e-12)
    q = max(2 * abs(ref.omega), amp / ref.r)
    c.check(s.grid is g, f"{msg}: grid")
    c.check(s.time == time and type(s.time) is type(time), f"{msg}: time is {s.time!r}, expected {time!r}")
    tol = 2e-5 * max(amp, q * ref.r)
    full = np.repeat(u[:, None], g.nlon, axis=1)
    c.close(s.u, full, f"{msg}: zonal wind", atol=tol)
    c.close(s.v, 0 * full, f"{msg}: no meridional wind", atol=tol)
    for name in ("u", "pv", "vorticity"):
        f = np.asarray(getattr(s, name), float)
        c.close(f, np.repeat(f.mean(axis=1)[:, None], g.nlon, axis=1), f"{msg}: {name} is zonally symmetric", atol=tol if name == "u" else 2e-5 * (np.max(np.abs(f)) + q))
    c.close(s.pv, np.asarray(s.vorticity, float) + ref.f2, f"{msg}: PV contains the planet's rotation", atol=1e-5 * q)
    if vo_r is not None and smooth:
        vo = np.repeat(vo_r[1:-1, None] / ref.r, g.nlon, axis=1)
        c.close(s.vorticity[1:-1], vo, f"{msg}: vorticity of the profile", atol=smooth * np.max(np.abs(vo)) + 2e-5 * q + 1e-6 * amp * np.sqrt(ref.eig[-1]))
    c.event("presets verified")


def motionless(c):
    w = world(c, NLON_SMALL + [48, 72])
    t = times(c); c.note(time=str(t))
    z = np.zeros(w.grid.nlat)
    for s, tt in ((bt.init.motionless(w.grid, t), t), (bt.init.motionless(w.grid, time=t), t), (bt.init.motionless(w.grid), 0.)):
        _verify(c, s, w.grid, w.ref, z, z, tt, "motionless", 1e-9)
        c.close(s.pv, w.ref.f2, "PV at rest is the Coriolis parameter", atol=3e-6 * abs(w.ref.omega) * 2)


PRESETS = {"sbr": "solid_body_rotation", "gauss": "gaussian_jet", "held": "held_1985"}
DEFAULTS = {"sbr": dict(amplitude=15.), "gauss": dict(amplitude=20., center_lat=45., stdev_lat=5.), "held": dict(A=25., B=30., C=300.)}


def presets(c):
    w = world(c, [36, 40, 48, 60, 72, 90], truncate=0.)
    g, ref = w.grid, w.ref
    kind = pick(c.rng, list(PRESETS))
    dlat = 180. / (g.nlat - 1)
    p, given = dict(DEFAULTS[kind]), {}
    names = list(p)
    values = {
        "amplitude": lambda: pick(c.rng, [5., -12., 40, 1e-3, 0., 15]), "center_lat": lambda: pick(c.rng, [45., 0, -30., 60., 75, -80., 90., float(c.rng.uniform(-90, 90))]),
        "stdev_lat": lambda: float(dlat * c.rng.uniform(2, 6)) if c.rng.random() < .8 else pick(c.rng, [25., 40]),
        "A": lambda: float(c.rng.uniform(-30, 30)), "B": lambda: float(c.rng.uniform(-40, 40)), "C": lambda: float(c.rng.uniform(-300, 300)),
    }
    for n in names:
        if c.rng.random() < .75 or n == "stdev_lat":
            given[n] = values[n]()
    p.update(given)
    t = times(c)
    f = getattr(bt.init, PRESETS[kind])
    how = pick(c.rng, ["keywords", "positional", "default time"])
    c.note(preset=kind, params=given, time=str(t), how=how)
    if how == "keywords":
        s = f(g, time=t, **given)
    elif how == "positional":
        s = f(g, t, *[p[n] for n in names])
    else:
        s, t = f(g, **given), 0.
    u, vo = profile(kind, ref.phi, p)
    smooth = {"sbr": 2e-5, "held": 2e-3, "gauss": None}[kind]
    _verify(c, s, g, ref, u, vo, t, PRESETS[kind], smooth)
    if kind == "gauss" and p["stdev_lat"] >= 2.5 * dlat:
        core = np.abs(ref.lat) < 80
        vo_ = np.where(core, vo, 0)[:, None] / ref.r
        got = np.where(core[:, None], s.vorticity, 0)
        c.close(got, np.repeat(vo_, g.nlon, axis=1), "gaussian_jet: vorticity of the profile", atol=.03 * np.max(np.abs(vo_)) + 2e-5 * max(2 * abs(ref.omega), abs(p["amplitude"]) / ref.r) + 1e-6 * abs(p["amplitude"]) * np.sqrt(ref.eig[-1]))
    if kind != "held":
        c.close([s.u[0], s.u[-1]], np.zeros((2, g.nlon)), "no wind at the poles", atol=2e-5 * max(abs(p["amplitude"]), 2 * abs(ref.omega) * ref.r, 1e-12))
    c.event("preset " + kind)


def zonal(c):
    w = world(c, NLON_SMALL + [48], truncate=.2)
    g, ref = w.grid, w.ref
    t = times(c)
    co = flow(c, w, min(w.band, ref.nmax), zonal=True)
    u2, _ = ref.wind(co)
    pv2 = ref.synth(co + ref.c_fcor())
    form = pick(c.rng, ["array", "list", "f32", "ints", "ro", "view", "rough"])
    kind = pick(c.rng, ["u", "pv"])
    c.note(form=form, profile=kind, time=str(t))
    prof = (u2 if kind == "u" else pv2)[:, 0].copy()
    if form == "ints":
        prof = (np.arange(g.nlat) * (g.nlat - 1 - np.arange(g.nlat))).astype(int)
        s = bt.init.zonally_symmetric(g, t, **{kind: prof})
        r = bt.init.zonally_symmetric(g, t, **{kind: prof.astype(float)})
        c.close(s.pv, r.pv, "integer profile", rtol=1e-6)
        full = np.repeat(prof[:, None], g.nlon, axis=1).astype(float)
        x = bt.State.from_wind(g, t, full, 0 * full) if kind == "u" else bt.State(g, t, pv=full)
        c.close(s.pv, x.pv, "integer profile as a field", rtol=1e-5)
    elif form == "rough":
        # any values, e.g. far away from zero or with jumps
        amp = vort_scale(ref) * (1. if kind == "pv" else ref.r)
        prof = c.rng.normal(size=g.nlat) * amp * pick(c.rng, [0., .01, 1.]) + amp * pick(c.rng, [0., 1., -3., 50.])
        s = bt.init.zonally_symmetric(g, t, **{kind: prof})
        full = np.repeat(prof[:, None], g.nlon, axis=1)
        x = bt.State.from_wind(g, t, full, 0 * full) if kind == "u" else bt.State(g, t, pv=full)
        q = np.max(np.abs(x.pv)) + 2 * abs(ref.omega)
        for f, k in (("pv", 1.), ("u", ref.r), ("v", ref.r)):
            c.close(getattr(s, f), getattr(x, f), f"{f} of the state with an arbitrary {kind} profile", atol=2e-5 * q * k)
    else:
        arg = {"list": prof.tolist(), "f32": prof.astype(np.float32), "view": np.repeat(prof, 2)[::2]}.get(form, prof)
        if form == "ro":
            prof.flags.writeable = False
        how = pick(c.rng, [0, 1])
        s = bt.init.zonally_symmetric(g, t, **{kind: arg}) if how else bt.init.zonally_symmetric(g, t, *((arg,) if kind == "u" else (None, arg)))
        vo = ref.synth(co)
        q = np.max(np.abs(pv2)) + 1e-300
        c.close(s.pv, pv2, f"PV of the state with the given {kind} profile", atol=5e-5 * q)
        c.close(s.u, u2, f"wind of the state with the given {kind} profile", atol=5e-5 * q * ref.r)
        c.close(s.v, 0 * u2, "no meridional wind", atol=2e-5 * q * ref.r)
        c.close(s.vorticity, vo, f"vorticity of the state with the given {kind} profile", atol=5e-5 * q)
        c.check(s.grid is g and s.time == t and type(s.time) is type(t), "grid and time")
    # refusals
    good = np.zeros(g.nlat)
    bads = {"nothing": dict(), "both": dict(u=good, pv=good), "size": {kind: np.zeros(g.nlat + 1)}, "nlon": {kind: np.zeros(g.nlon)},
            "2d": {kind: np.zeros(g.shape)}, "scalar": {kind: 1.}, "column": {kind: good[:, None]}}
    name = pick(c.rng, list(bads)); c.note(bad=name)
    c.raises(lambda: bt.init.zonally_symmetric(g, t, **bads[name]), f"profile refused: {name}")
    c.event("zonal profiles")


CASES = [(motionless, 20, 300), (presets, 100, 3000), (zonal, 60, 1500)]
REQUIRED_EVENTS = {"presets verified": 100, "preset sbr": 15, "preset gauss": 15, "preset held": 15, "zonal profiles": 40}
