"""C04: vector calculus operators."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations

RULE = "a case is a configuration with band-limited scalar and wind fields; analytic derivatives from the reference sphere"
TOL = 4e-5


def scalar(c):
    w = world(c, NLON_SMALL + NLON_MID)
    g, ref = w.grid, w.ref
    co = ref.random(c.rng, int(c.rng.integers(1, w.band + 1)), 0, float(c.rng.uniform(0, 2)), float(pick(c.rng, [1., 1e-5, 1e4])))
    f = ref.synth(co)
    gx, gy = ref.gradient(co)
    # single precision noise of the input reaches the highest degrees
    kn, fm = np.sqrt(ref.eig[w.band]), np.max(np.abs(f))
    s = max(np.max(np.abs(gx)), np.max(np.abs(gy))) + .05 * kn * fm
    out = g.gradient(f)
    c.check(len(out) == 2, "gradient has two components")
    c.close(out[0], gx, "zonal component of the gradient", atol=TOL * s)
    c.close(out[1], gy, "meridional component of the gradient", atol=TOL * s)
    lap = ref.synth(ref.laplace(co))
    t = TOL * (np.max(np.abs(lap)) + .05 * kn ** 2 * fm)
    c.close(g.laplace(f), lap, "Laplacian", atol=t)
    c.close(g.to_grid(g.laplace_spectral(g.to_spectral(f))), lap, "Laplacian (spectral variant)", atol=t)
    c.event("scalar fields")


def truncated_scalar(c):
    """Operators see only what the truncation keeps."""
    w = world(c, NLON_SMALL, truncate=1.)
    g, ref = w.grid, w.ref
    co = ref.random(c.rng, ref.nmax, 0, 1.)
    ct = ref.truncate(co, w.ntrunc)
    f = ref.synth(co)
    gx, gy = ref.gradient(ct)
    kn, fm = np.sqrt(ref.eig[w.band]), np.max(np.abs(f))
    s = max(np.max(np.abs(gx)), np.max(np.abs(gy))) + .05 * kn * fm
    gx_, gy_ = g.gradient(f)
    c.close(gx_, gx, "zonal gradient with truncation", atol=TOL * s)
    c.close(gy_, gy, "meridional gradient with truncation", atol=TOL * s)
    c.close(g.laplace(f), ref.synth(ref.laplace(ct)), "Laplacian with truncation", atol=TOL * (np.max(np.abs(ref.synth(ref.laplace(ct)))) + .05 * kn ** 2 * fm))
    c.event("scalar fields")


def vector(c):
    w = world(c, NLON_SMALL + NLON_MID)
    g, ref = w.grid, w.ref
    amp = 10. ** float(c.rng.uniform(-10, 2))
    zero = pick(c.rng, ["none", "none", "div", "vort"])
    slope = float(c.rng.uniform(0, 2))
    cv = ref.random(c.rng, w.band, 1, slope, 0. if zero == "vort" else amp)
    cd = ref.random(c.rng, w.band, 1, slope, 0. if zero == "div" else amp * float(c.rng.uniform(.1, 2)))
    c.note(amp=amp, zero=zero)
    vo, di = ref.synth(cv), ref.synth(cd)
    u, v = ref.wind(cv, cd)
    s = max(np.max(np.abs(vo)), np.max(np.abs(di)), 1e-300)
    sw = max(np.max(np.abs(u)), np.max(np.abs(v)))
    t = TOL * (s + .05 * np.sqrt(ref.eig[w.band]) * sw)
    # Winds from any mixture of gridded and spectral input
    VO, DI = g.to_spectral(vo), g.to_spectral(di)
    for a, b, what in ((vo, di, "gridded"), (VO, DI, "spectral"), (vo, DI, "mixed"), (VO, di, "mixed")):
        U, V = g.wind(a, b)
        c.close(U, u, f"zonal wind from {what} input", atol=TOL * sw)
        c.close(V, v, f"meridional wind from {what} input", atol=TOL * sw)
    G = g.to_grid
    c.close(g.vorticity(u, v), vo, "vorticity", atol=t)
    c.close(g.divergence(u, v), di, "divergence", atol=t)
    c.close(G(g.vorticity_spectral(u, v)), vo, "vorticity (spectral)", atol=t)
    c.close(G(g.divergence_spectral(u, v)), di, "divergence (spectral)", atol=t)
    a, b = g.vorticity_divergence(u, v)
    c.close(a, vo, "vorticity (combined)", atol=t)
    c.close(b, di, "divergence (combined)", atol=t)
    a, b = g.vorticity_divergence_spectral(u, v)
    c.close(a, VO, "vorticity (combined, spectral)", atol=t * 3)
    c.close(b, DI, "divergence (combined, spectral)", atol=t * 3)
    # and there and back with the library's own winds
    U, V = g.wind(vo, di)
    c.close(g.vorticity(U, V), vo, "wind has the vorticity it was made from", atol=2 * t)
    c.close(g.divergence(U, V), di, "wind has the divergence it was made from", atol=2 * t)
    c.event("vector fields")


def identities(c):
    w = world(c, NLON_SMALL)
    g, ref = w.grid, w.ref
    f = ref.synth(ref.random(c.rng, w.band, 0, 1.))
    fx, fy = g.gradient(f)
    lap = g.laplace(f)
    s = TOL * (np.max(np.abs(lap)) + .05 * ref.eig[w.band] * np.max(np.abs(f)))
    c.close(g.vorticity(fx, fy), 0 * f, "curl of a gradient", atol=s)
    c.close(g.divergence(-fy, fx), 0 * f, "divergence of a rotated gradient", atol=s)
    c.close(g.divergence(fx, fy), lap, "divergence of a gradient is the Laplacian", atol=s)
    c.close(g.vorticity(-fy, fx), lap, "curl of a rotated gradient is the Laplacian", atol=s)
    # arbitrary (not band-limited) winds: variants agree
    u, v = c.rng.normal(size=(2,) + g.shape)
    vs, ds = g.vorticity_divergence_spectral(u, v)
    sc = np.max(np.abs(vs)) + np.max(np.abs(ds))
    t = 1e-5 * sc
    c.close(g.vorticity_spectral(u, v), vs, "variants agree (vorticity_spectral)", atol=t)
    c.close(g.divergence_spectral(u, v), ds, "variants agree (divergence_spectral)", atol=t)
    vg, dg = g.to_grid(vs), g.to_grid(ds)
    tg = 1e-5 * (np.max(np.abs(vg)) + np.max(np.abs(dg)))
    c.close(g.vorticity(u, v), vg, "variants agree (vorticity)", atol=tg)
    c.close(g.divergence(u, v), dg, "variants agree (divergence)", atol=tg)
    a, b = g.vorticity_divergence(u, v)
    c.close(a, vg, "variants agree (combined vorticity)", atol=tg)
    c.close(b, dg, "variants agree (combined divergence)", atol=tg)
    z = g.laplace_spectral(g.to_spectral(f))
    c.close(g.to_grid(z), lap, "variants agree (laplace)", atol=s)
    c.event("identities")


def radius_scaling(c):
    """The same field on two planets: derivatives scale with the radius."""
    w = world(c, NLON_SMALL, legfunc=False)
    g, ref = w.grid, w.ref
    k = float(pick(c.rng, [2., 10., .01]))
    h = bt.Grid(360. / ref.nlon, rsphere=ref.r * k, omega=ref.omega, ntrunc=w.ntrunc)
    c.note(factor=k)
    f = ref.synth(ref.random(c.rng, w.band, 1, 1.))
    kn, fm = np.sqrt(ref.eig[w.band]), np.max(np.abs(f))
    for a, b, what in zip(g.gradient(f), h.gradient(f), ("zonal", "meridional")):
        c.close(np.asarray(b, float) * k, a, f"{what} gradient scales with 1/r", rtol=TOL, atol=2e-6 * kn * fm)
    c.close(np.asarray(h.laplace(f), float) * k * k, g.laplace(f), "Laplacian scales with 1/r^2", rtol=TOL, atol=2e-6 * kn ** 2 * fm)
    z = np.zeros(g.shape)
    for a, b in zip(g.wind(f, z), h.wind(f, z)):
        c.close(b, np.asarray(a, float) * k, "wind scales with r", rtol=TOL)
    for name in ("vorticity", "divergence"):
        u, v = g.wind(f, f)
        c.close(np.asarray(getattr(h, name)(u, v), float) * k, getattr(g, name)(u, v), f"{name} scales with 1/r", rtol=TOL)
    c.event("radius pairs")


def array_kinds(c):
    w = world(c, NLON_SMALL)
    g = w.grid
    f, h = any_field(c, g.shape, 10. ** float(c.rng.uniform(-6, 3))), any_field(c, g.shape, 10. ** float(c.rng.uniform(-6, 3)))
    op = pick(c.rng, ["gradient", "laplace", "vorticity", "divergence", "vorticity_divergence", "vorticity_spectral", "divergence_spectral", "wind"])
    c.note(op=op)
    h = np.asarray(h, float) * (np.max(np.abs(f)) / max(np.max(np.abs(h)), 1e-300))
    one = op in ("gradient", "laplace")
    same_for_representations(c, getattr(g, op), [f] if one else [f, h], op, rtol=1e-4)
    c.event("array kinds")


CASES = [(array_kinds, 40, 1000), (scalar, 60, 2000), (truncated_scalar, 20, 600), (vector, 60, 2000), (identities, 25, 800), (radius_scaling, 15, 500)]
REQUIRED_EVENTS = {"scalar fields": 60, "vector fields": 40, "identities": 15}
