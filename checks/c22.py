"""C22: stationary wavenumber."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations

RULE = "a case is a planet, grid, zonal wind and PV, threshold, order and variant; expectation from an independent formula, point by point"
D = bt.diagnostics


def derivative(f, order, dphi):
    """The documented one-dimensional meridional derivative: zero at the poles, centred differences inside."""
    n = len(f)
    out = np.zeros(n)
    for j in range(1, n - 1):
        if order == 2 or j in (1, n - 2):
            out[j] = (f[j - 1] - f[j + 1]) / (2 * dphi) if order == 2 else np.nan
        else:
            out[j] = (-f[j - 2] + 8 * f[j - 1] - 8 * f[j + 1] + f[j + 2]) / (12 * dphi)
    return out


def _from_squared(c, got, sq, kind, msg, tol):
    """The complex and real variants represent the squared one."""
    sq = np.asarray(sq, float)
    with np.errstate(invalid="ignore"):
        root = np.sqrt(np.abs(sq))
    got = np.asarray(got)
    if kind == "complex":
        c.check(np.iscomplexobj(got), f"{msg}: complex variant is {got.dtype}")
        c.check(not np.isnan(got.real).any() and not np.isnan(got.imag).any(), f"{msg}: NaN in the complex variant: {got[np.isnan(got)][:3]}")
        c.close(got.real, np.where(sq > 0, root, 0.), f"{msg}: real part", rtol=1e-6, nonfinite=True, scale=np.where(np.isfinite(root), root, 0) + tol)
        c.close(got.imag, np.where(sq < 0, root, 0.), f"{msg}: imaginary part", rtol=1e-6, nonfinite=True, scale=np.where(np.isfinite(root), root, 0) + tol)
    elif kind == "real":
        c.check(not np.iscomplexobj(got), f"{msg}: real variant is {got.dtype}")
        c.close(got, np.where(sq >= 0, root, -root), f"{msg}: real variant", rtol=1e-6, nonfinite=True, scale=np.where(np.isfinite(root), root, 0) + tol)
    else:
        c.close(got, sq, f"{msg}: squared variant", rtol=1e-6, nonfinite=True, scale=np.where(np.isfinite(sq), np.abs(sq), 0) + tol)


def _winds(c, w):
    """Wind profiles with easterlies, zeros and values around the threshold."""
    g, ref = w.grid, w.ref
    lat, co = ref.lat, np.cos(ref.phi)
    kind = pick(c.rng, ["sbr", "jet", "two", "noise", "zeros", "calm", "weak", "easterly", "int"])
    U = pick(c.rng, [15., 40., 1.])
    u = {
        "sbr": U * co, "easterly": -U * co, "jet": U * np.exp(-((lat - 40) / 15) ** 2) - 5 * co ** 3, "two": U * np.sin(2 * ref.phi) ** 2 * np.sin(3 * ref.phi),
        "noise": U * c.rng.normal(size=g.nlat), "zeros": np.where(c.rng.random(g.nlat) < .5, 0., U * co), "calm": np.zeros(g.nlat), "weak": .002 * c.rng.normal(size=g.nlat),
        "int": np.round(U * co).astype(int),
    }[kind]
    c.note(wind=kind, U=U)
    return u


def from_wind(c):
    w = world(c, [12, 16, 20, 24, 36, 40, 60], truncate=0.)
    g, ref = w.grid, w.ref
    u = _winds(c, w)
    order = pick(c.rng, [2, 4])
    min_u = pick(c.rng, [None, .001, 0., .1, 5.])
    form = pick(c.rng, ["1d", "2d", "2d eddies"])
    kind = pick(c.rng, ["complex", "real", "squared"])
    c.note(order=order, min_u=min_u, form=form, variant=kind)
    kw = {"kind": kind}
    if kind == "complex" and c.rng.random() < .5: kw = {}
    if order != 4 or c.rng.random() < .5: kw["order"] = order
    if min_u is not None: kw["min_u"] = min_u
    arg = u
    if form != "1d":
        arg = np.repeat(u[:, None], g.nlon, axis=1).astype(float)
        if form == "2d eddies":
            arg = arg + np.outer(np.abs(u) + 1, np.cos(3 * ref.lam))
    got = D.stationary_wavenumber(arg, g, **kw)
    u0 = arg.mean(axis=1) if form != "1d" else np.asarray(u, float)
    # documented: PV of the profile, its derivative (by the library's own operator, see C06), the ratio
    co = np.cos(ref.phi)
    with np.errstate(all="ignore"):
        # by the documented operator; the polar rows of the vorticity are 0 / cos(90°)
        rv = -np.asarray(g.derivative_meridional(u0 * co, order=order), float) / ref.r / np.cos(ref.phi)
    pv = 2 * ref.omega * np.sin(ref.phi) + rv
    d = np.asarray(g.derivative_meridional(pv, order=order), float)
    _judge(c, got, u0, co ** 2 * ref.r * d, .001 if min_u is None else min_u, kind, np.max(np.abs(co ** 2 * ref.r * pv)) * g.nlat, g)
    c.event("wind profiles " + form)


def _judge(c, got, u, num, min_u, kind, scale, g):
    got = np.asarray(got)
    if not c.check(got.shape == (g.nlat,), f"shape {got.shape}"):
        return
    tiny = 1e-10 * scale # cannot tell the sign of smaller gradients
    small = np.abs(u) <= min_u
    edge = np.abs(np.abs(u) - min_u) <= 1e-9 * (np.abs(u) + min_u) + 1e-13
    unsure = (np.abs(num) <= tiny) & (num != 0)
    with np.errstate(all="ignore"):
        sq = np.where(small, np.where(num > 0, np.inf, np.where(num < 0, -np.inf, 0.)), num / np.where(small, 1., u))
    # rows at the poles: gradient is zero by definition
    keep = ~edge & ~unsure
    c.check(not np.isnan(got.real).any() and not np.isnan(got.imag).any(), "NaN in the stationary wavenumber")
    tol = np.where(small, 1e-30, 3 * tiny / np.where(small, 1., np.abs(u)))[keep]
    if kind == "squared":
        c.close(got[keep], sq[keep], "squared stationary wavenumber", nonfinite=True, rtol=1e-6, scale=np.where(np.isfinite(sq[keep]), np.abs(sq[keep]), 0.), atol=tol)
    else:
        g2 = np.where(got.real != 0, got.real, -got.imag) if kind == "complex" else got.real
        with np.errstate(invalid="ignore"):
            back = np.where(np.isinf(g2), g2, g2 * np.abs(g2)) # signed square
        c.close(back[keep], sq[keep], f"square of the {kind} variant", nonfinite=True, rtol=2e-6, scale=np.where(np.isfinite(sq[keep]), np.abs(sq[keep]), 0.), atol=tol)
        if kind == "complex":
            c.check(np.iscomplexobj(got), f"complex variant has type {got.dtype}")
            c.check(np.all((got.real == 0) | (got.imag == 0)), "either real or imaginary part vanishes")
            c.check(np.all(got.real >= 0) and np.all(got.imag >= 0), "principal root")
        else:
            c.check(not np.iscomplexobj(got), "real variant is real")
    c.event("points with infinite wavenumber", int(np.isinf(sq[keep]).sum()))
    c.event("points with imaginary wavenumber", int(np.sum((sq < 0)[keep])))
    c.event("points verified", int(keep.sum()))


def from_state(c):
    w = world(c, [16, 20, 24, 36, 40], truncate=.2)
    g, ref = w.grid, w.ref
    kind = pick(c.rng, ["eddies", "zonal", "rest"])
    cv = flow(c, w, zonal=kind == "zonal", slope=2., amplitude=0. if kind == "rest" else None)
    s = bt.State.from_vorticity(g, 0., ref.synth(cv))
    order = pick(c.rng, [2, 4])
    variant = pick(c.rng, ["complex", "real", "squared"])
    umax = float(np.max(np.abs(s.u)))
    min_u = pick(c.rng, [.001, 0., .1 * umax, .01 * umax, 2 * umax])
    c.note(flow=kind, order=order, variant=variant, min_u=min_u)
    got = D.stationary_wavenumber(s, order=order, min_u=min_u, kind=variant)
    u = np.asarray(s.u, float).mean(axis=1)
    pv = np.asarray(s.pv, float).mean(axis=1)
    num = np.cos(ref.phi) ** 2 * ref.r * np.asarray(g.derivative_meridional(pv, order=order), float)
    # single precision means
    noise = 3e-7 * np.max(np.abs(s.pv)) * ref.r * g.nlat
    small_noise = 1e-6 * umax + 1e-30
    near = np.abs(np.abs(u) - min_u) <= small_noise
    keep = ~near & (np.abs(u) > 30 * small_noise)
    keep |= (np.abs(u) < min_u - small_noise) & (np.abs(num) > noise * 3)
    with np.errstate(all="ignore"):
        sq = np.where(np.abs(u) <= min_u, np.sign(num) * np.inf, num / u)
    keep &= ~np.isnan(sq)
    g2 = np.asarray(got)
    c.check(g2.shape == (g.nlat,), "shape")
    c.check(not np.isnan(g2.real).any() and not np.isnan(g2.imag).any(), "NaN in the stationary wavenumber of a state")
    if variant != "squared":
        x = np.where(g2.real != 0, g2.real, -g2.imag) if variant == "complex" else g2.real
        with np.errstate(invalid="ignore"):
            g2 = np.where(np.isinf(x), x, x * np.abs(x))
    tol = np.where(np.isinf(sq) | (u == 0), 0., noise / np.where(u == 0, 1, np.abs(u)))
    fin = np.where(np.isfinite(sq), np.abs(sq), 0)
    c.close(g2[keep], sq[keep], "stationary wavenumber of a state", nonfinite=True, rtol=1e-4, scale=fin[keep], atol=tol[keep])
    # the accessor
    a, b = np.asarray(s.stationary_wavenumber), np.asarray(D.stationary_wavenumber(s))
    c.check(np.iscomplexobj(a), "accessor is complex")
    for p in ("real", "imag"):
        x, y = getattr(a, p), getattr(b, p)
        c.close(x, y, f"accessor: {p} part", nonfinite=True, rtol=1e-6)
    # consistency of a state, its wind field and its mean profile, where the derivative is resolved
    if ref.nmax >= 17 and kind != "rest":
        pass
    c.event("states")


def consistency(c):
    """State, 2D wind and profile agree up to truncation error; analytic wavenumbers."""
    w = world(c, [60, 72, 90, 120], radii=[EARTH_R, 3e6, 2e7], omegas=[EARTH_W, 1.5e-4, 3e-5], truncate=0.)
    g, ref = w.grid, w.ref
    # solid-body rotation with angular velocity a: Ks² = 2 (W + a) / a cos²
    a = ref.omega * float(c.rng.uniform(.02, .4)) * pick(c.rng, [1., 1., -1.])
    b = ref.omega * float(pick(c.rng, [0., .02, -.03]))
    order = pick(c.rng, [2, 4])
    s_, co = np.sin(ref.phi), np.cos(ref.phi)
    u = ref.r * co * (a + b * s_ ** 2)
    if np.min(np.abs(a + b * s_ ** 2)) < .3 * abs(a):
        b = 0.; u = ref.r * co * a
    pv_y = 2 * (ref.omega + a) + b * (12 * s_ ** 2 - 2) # d pv / d sin(lat), zeta = 2 a s + b (4 s^3 - 2 s)
    want = co * pv_y * co ** 2 * ref.r / (u + (co < 1e-12))
    c.note(a=a, b=b, order=order)
    u2 = np.repeat(u[:, None], g.nlon, axis=1)
    st = bt.State.from_wind(g, 0., u2, 0 * u2)
    core = np.abs(ref.lat) < 75
    sc = np.max(np.abs(want))
    tol = (.02 if order == 4 else .03) * sc
    for name, got in (("profile", D.stationary_wavenumber(u, g, order=order, kind="squared")), ("wind field", D.stationary_wavenumber(u2, g, order=order, kind="squared")),
                      ("state", D.stationary_wavenumber(st, order=order, kind="squared"))):
        c.close(np.asarray(got, float)[core], want[core], f"Ks² of an analytic flow from a {name}", atol=tol)
        c.event("analytic wavenumbers")
    real = D.stationary_wavenumber(u, g, kind="real")
    c.close(np.asarray(real)[core], (np.sign(want) * np.sqrt(np.abs(want)))[core], "Ks of an analytic flow", atol=.03 * np.sqrt(sc))
    c.raises(lambda: D.stationary_wavenumber(u, g, kind=pick(c.rng, ["abs", "", None, "Real", "imag"])), "unknown variant refused")
    c.raises(lambda: D.stationary_wavenumber(u, g, order=pick(c.rng, [1, 3, 6])), "unknown order refused")


def array_kinds(c):
    w = world(c, NLON_SMALL, legfunc=False, truncate=0.)
    g = w.grid
    u = (10. + 5 * np.sin(3 * g.phi2) + np.cos(g.lam2)) * np.cos(g.phi2)
    if c.rng.random() < .5:
        u = u[:, 0].copy()
    kinds = ["fortran", "strided", "reversed", "readonly", "transposed", "reused", "recycled", "mixed"]
    kind = pick(c.rng, ["squared", "complex", "real"])
    order = int(pick(c.rng, [2, 4]))
    same_for_representations(c, lambda x: [h for k in [bt.diagnostics.stationary_wavenumber(x, g, order=order, kind=kind)] for h in (np.real(k), np.imag(k))], [u], f"stationary wavenumber {kind}", rtol=1e-7, kinds=kinds)
    # integer winds
    ui = np.round(u).astype(int)
    a, b = (bt.diagnostics.stationary_wavenumber(x, g, order=order, kind="squared") for x in (ui, ui.astype(float)))
    c.close(a, b, "integer wind", rtol=1e-9, nonfinite=True, scale=np.max(np.abs(b[np.isfinite(b)])))
    c.event("array kinds")


CASES = [(array_kinds, 30, 800), (from_wind, 80, 3000), (from_state, 50, 1500), (consistency, 20, 500)]
REQUIRED_EVENTS = {"points verified": 1000, "points with infinite wavenumber": 50, "points with imaginary wavenumber": 50, "states": 30, "analytic wavenumbers": 40}
