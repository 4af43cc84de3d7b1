"""C12: all fields of a state describe the same flow."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations

RULE = "a case is a planet, grid, flow and the representation it is built from; every field is compared with the float64 reference of that flow"
TOL = 1.5e-5


def scales(ref, c_pv, band):
    """Magnitudes that single precision errors of PV, wind and streamfunction are measured with."""
    q = max(np.max(np.abs(ref.synth(c_pv))), 1e-300)
    return q, q * ref.r, q * ref.r ** 2


def verify(c, s, w, c_vo, tag, flux=False):
    g, ref = w.grid, w.ref
    c_pv = c_vo + ref.c_fcor()
    q, uw, pw = scales(ref, c_pv, w.band)
    pv, vo = ref.synth(c_pv), ref.synth(c_vo)
    u, v = ref.wind(c_vo)
    psi = ref.synth(ref.inv_laplace(c_vo))
    fields = {
        "pv": (pv, q), "avo": (pv, q), "vorticity": (vo, q), "vo": (vo, q), "u": (u, uw), "v": (v, uw), "streamfunction": (psi, pw),
        "enstrophy": (.5 * pv ** 2, q * q), "eddy_enstrophy": (.5 * (pv - pv.mean(axis=1, keepdims=True)) ** 2, q * q),
        "energy": (.5 * (u ** 2 + v ** 2), uw * (np.max(np.abs(u)) + np.max(np.abs(v)) + 1e-3 * uw)),
    }
    names = list(fields)
    c.rng.shuffle(names)
    for name in names:
        want, scale = fields[name]
        c.close(getattr(s, name), want, f"{name} of the state built from {tag}", atol=3 * TOL * scale)
    # exact relations among the state's own fields
    U, V, Q = (np.asarray(getattr(s, k), float) for k in ("u", "v", "pv"))
    c.close(s.energy, .5 * (U * U + V * V), "energy is that of the wind", rtol=1e-5, atol=1e-13 * uw * uw)
    c.close(s.enstrophy, .5 * Q * Q, "enstrophy is that of the PV", rtol=1e-5, atol=1e-13 * q * q)
    c.close(s.eddy_enstrophy, .5 * (Q - Q.mean(axis=1, keepdims=True)) ** 2, "eddy enstrophy is that of the PV", atol=1e-6 * q * q)
    c.close(s.vorticity, Q - ref.f2, "relative vorticity is PV without the planet's", atol=1e-6 * q)
    c.close(s.avo, Q, "avo is pv", atol=1e-7 * q)
    c.close(s.vo, s.vorticity, "vo is vorticity", atol=1e-7 * q)
    c.close(g.to_grid(s.pv_spectral), Q, "PV spectrum", atol=TOL * q)
    c.close(s.pv_spectral, g.to_spectral(s.pv), "spectrum of the PV", atol=TOL * q * 4)
    c.close(g.to_grid(s.vorticity_spectral), vo, "vorticity spectrum", atol=3 * TOL * q)
    kn = np.sqrt(ref.eig[w.band])
    c.close(g.divergence(s.u, s.v), 0 * vo, "wind is non-divergent", atol=TOL * q + 2e-6 * kn * np.max(np.abs(u)))
    c.close(g.vorticity(s.u, s.v), vo, "wind has the state's vorticity", atol=3 * TOL * q + 2e-6 * kn * uw)
    gx, gy = g.gradient(s.streamfunction)
    c.close(gx, V, "meridional wind is the zonal gradient of the streamfunction", atol=3 * TOL * uw + 2e-6 * kn * pw)
    c.close(-np.asarray(gy), U, "zonal wind is minus the meridional gradient of the streamfunction", atol=3 * TOL * uw + 2e-6 * kn * pw)
    m = np.sum(np.asarray(s.streamfunction, float) * g.gridpoint_area[:, None]) / (g.nlon * np.sum(g.gridpoint_area))
    mw = np.sum(psi * g.gridpoint_area[:, None]) / (g.nlon * np.sum(g.gridpoint_area))
    c.close(m, mw, "streamfunction has zero mean", atol=3 * TOL * pw)
    if flux:
        raw = ref.flux_divergence(c_pv)
        div = ref.synth(ref.truncate(ref.analysis(raw), w.ntrunc))
        fs = q * (np.max(np.abs(u)) + np.max(np.abs(v))) * max(kn, 1 / ref.r)
        c.close(g.to_grid(s.pv_flux_spectral), div, "divergence of the PV flux", atol=2e-5 * fs + 1e-6 * kn * q * uw)
        c.close(s.pv_flux_spectral, g.divergence_spectral(s.pv * s.u, s.pv * s.v), "PV flux is that of the state's PV and wind", atol=1e-5 * fs + 1e-7 * kn * q * uw)
        c.event("flux divergences")
    c.event("states verified")


def build(g, ref, how, time, c_vo, rng):
    c_pv = c_vo + ref.c_fcor()
    if how == "wind":
        u, v = ref.wind(c_vo)
        return bt.State.from_wind(g, time, u, v)
    if how == "divergent wind":
        u, v = ref.wind(c_vo, ref.random(rng, 6, 1, 1., .3 * np.max(np.abs(ref.synth(c_vo)))))
        return bt.State.from_wind(g, time, u, v)
    if how == "vorticity":
        return bt.State.from_vorticity(g, time, ref.synth(c_vo))
    if how == "pv":
        return bt.State(g, time, pv=ref.synth(c_pv)) if rng.random() < .5 else bt.State(g, time, ref.synth(c_pv))
    return bt.State(g, time, pv_spectral=g.to_spectral(ref.synth(c_pv)))


HOW = ["wind", "vorticity", "pv", "pv spectrum", "divergent wind"]


def representations(c):
    w = world(c, NLON_SMALL + [48, 60])
    kind = pick(c.rng, ["any", "any", "low", "zonal", "rest"])
    nmax = w.band if kind == "any" else max(2, (w.ref.nmax - 1) // 2)
    if kind == "low":
        nmax = max(1, min(w.ref.nmax // 2, w.band))
    c_vo = flow(c, w, nmax, zonal=kind == "zonal", slope=float(c.rng.uniform(.3, 2)), amplitude=0. if kind == "rest" else None)
    how = pick(c.rng, HOW)
    time = times(c)
    c.note(flow=kind, built_from=how, time=str(time))
    s = build(w.grid, w.ref, how, time, c_vo, c.rng)
    c.check(s.grid is w.grid, "state keeps its grid")
    c.check(s.time == time and type(s.time) is type(time), "state keeps its time")
    verify(c, s, w, c_vo, how, flux=kind in ("low", "rest"))
    c.event("built from " + how)


def agreement(c):
    """States of one flow from all representations agree with each other."""
    w = world(c, NLON_SMALL)
    c_vo = flow(c, w)
    q, uw, pw = scales(w.ref, c_vo + w.ref.c_fcor(), w.band)
    s0 = build(w.grid, w.ref, HOW[int(c.rng.integers(5))], 0., c_vo, c.rng)
    # rebuild from what the state itself says
    again = {
        "own wind": bt.State.from_wind(w.grid, 0., s0.u, s0.v), "own vorticity": bt.State.from_vorticity(w.grid, 0., s0.vorticity),
        "own pv": bt.State(w.grid, 0., pv=s0.pv), "own spectrum": bt.State(w.grid, 0., pv_spectral=s0.pv_spectral),
    }
    for name, s in again.items():
        for f, scale in (("pv", q), ("u", uw), ("v", uw), ("streamfunction", pw), ("vorticity", q)):
            c.close(getattr(s, f), getattr(s0, f), f"{f} of a state rebuilt from its {name}", atol=3 * TOL * scale)
    c.event("rebuilt states", 4)


def arbitrary(c):
    """Fields with structure that the truncation removes: one projection is shared by all fields."""
    w = world(c, NLON_SMALL)
    g = w.grid
    f = any_field(c, g.shape, vort_scale(w.ref))
    q = np.max(np.abs(f)) + 1e-300
    s = bt.State(g, 1., pv=f)
    proj = g.to_grid(g.to_spectral(f))
    c.close(s.pv, proj, "PV is the projection onto the truncation", atol=1e-5 * q)
    c.close(s.pv_spectral, g.to_spectral(f), "PV spectrum is that of the field", atol=1e-5 * q)
    q = max(q, 2 * abs(w.ref.omega))
    vo = np.asarray(proj, float) - w.ref.f2
    c.close(s.vorticity, vo, "vorticity of the projection", atol=1e-5 * q)
    u, v = g.wind(g.to_spectral(vo), np.zeros_like(g.to_spectral(vo)))
    for a, b, n in ((s.u, u, "u"), (s.v, v, "v")):
        c.close(a, b, f"{n} of the projection", atol=3e-5 * q * w.ref.r)
    t = bt.State.from_vorticity(g, 1., vo)
    c.close(t.pv, s.pv, "PV after a round trip through vorticity", atol=1e-5 * q * 3)
    c.raises(lambda: bt.State(g, 0., pv=f, pv_spectral=g.to_spectral(f)), "PV given twice")
    c.event("arbitrary fields")


def array_kinds(c):
    w = world(c, NLON_SMALL)
    g = w.grid
    out = lambda s: (s.pv, s.u, s.v, s.streamfunction, s.vorticity, s.energy)
    k = pick(c.rng, ["pv", "vorticity", "wind"])
    f, h = any_field(c, g.shape, vort_scale(w.ref)), any_field(c, g.shape, vort_scale(w.ref))
    c.note(constructor=k)
    # the wind is the difference of large numbers for truncated noise, so compare with the accuracy of single precision
    if k == "wind":
        F = lambda a, b: out(bt.State.from_wind(g, 0., a, b))
        f, h = np.asarray(f, float) * g.rsphere, np.asarray(h, float) * g.rsphere
        args = [f, h * (np.max(np.abs(f)) / max(np.max(np.abs(h)), 1e-300))]
    elif k == "pv":
        F, args = (lambda a: out(bt.State(g, 0., pv=a))), [f]
    else:
        F, args = (lambda a: out(bt.State.from_vorticity(g, 0., a))), [f]
    same_for_representations(c, F, args, f"state from {k}", rtol=2e-4, levels=3., kinds=["fortran", "strided", "reversed", "readonly", "transposed", "broadcast", "reused", "recycled", "single", "mixed"])
    c.event("array kinds")


CASES = [(array_kinds, 25, 600), (representations, 90, 3000), (agreement, 25, 800), (arbitrary, 25, 800)]
REQUIRED_EVENTS = {"states verified": 60, "flux divergences": 10, "rebuilt states": 60, "arbitrary fields": 15}
