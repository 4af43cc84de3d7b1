"""C23: waveguide extraction."""
import numpy as np, barotropic as bt
from lib.gen import *

RULE = "a case is a stationary wavenumber profile and a wavenumber on a grid; expectation from runs of gridpoints at or above the wavenumber and independently interpolated limits"
D = bt.diagnostics


def expected(lat, r, k):
    """[(start, end, indices)] for the real-variant profile r."""
    n = len(r)
    act = [x > k for x in r]
    near = [act[j] or (r[j] == k and ((j > 0 and r[j - 1] > k) or (j + 1 < n and r[j + 1] > k))) for j in range(n)]
    def crossing(inside, outside):
        """Latitude where the profile between two neighbours passes k."""
        a, b = r[inside], r[outside]
        if np.isinf(a):
            return lat[outside]
        if np.isinf(b):
            return lat[inside]
        t = (k - a) / (b - a)
        return lat[inside] + t * (lat[outside] - lat[inside])
    out, j = [], 0
    while j < n:
        if not near[j]:
            j += 1
            continue
        e = j
        while e + 1 < n and near[e + 1]:
            e += 1
        out.append((lat[0] if j == 0 else crossing(j, j - 1), lat[-1] if e == n - 1 else crossing(e, e + 1), (j, e)))
        j = e + 1
    return out


def _profile(c, n):
    rng = c.rng
    kind = pick(rng, ["smooth", "noise", "noise", "spiky", "inf", "inf", "alternating", "equal", "low", "high"])
    c.note(profile=kind)
    x = np.linspace(0, np.pi, n)
    r = 5 + 4 * np.sin(rng.integers(1, 5) * x + rng.uniform(0, 6)) + rng.normal(size=n) * .1
    if kind == "noise":
        r = rng.normal(size=n) * 5 + 3
    elif kind == "spiky":
        r = np.where(rng.random(n) < .3, 9., 1.) + rng.normal(size=n) * .01
    elif kind == "inf":
        r = rng.normal(size=n) * 4 + 4
        m = rng.random(n)
        r[m < .25] = np.inf; r[m > .75] = -np.inf
    elif kind == "alternating":
        r = np.where(np.arange(n) % 2 == int(rng.integers(2)), pick(rng, [9., np.inf]), pick(rng, [-3., 0., -np.inf]))
    elif kind == "low":
        r = -np.abs(r)
    elif kind == "high":
        r = np.abs(r) + 20
    elif kind == "equal":
        r = rng.integers(0, 9, size=n).astype(float)
    return r


def extraction(c):
    w = world(c, NLON_SMALL + [72, 90], truncate=0., legfunc=False)
    g = w.grid
    lat = [float(x) for x in w.ref.lat]
    r = _profile(c, g.nlat)
    k = pick(c.rng, [int(c.rng.integers(0, 9)), int(c.rng.integers(0, 9)), float(c.rng.uniform(0, 9)), np.int64(4), np.float64(3.5), np.float32(2.5), complex(3, 0), -1.5, -2])
    form = k
    if k < 0 if not isinstance(k, complex) else False:
        # imaginary wavenumbers stand for negative ones
        form = pick(c.rng, [k, complex(0., -k), np.complex128(complex(0., -k))])
    k = complex(k).real
    # plateaus of exact equality may be assigned either way: leave only isolated equal points
    for j in range(1, len(r)):
        if r[j] == k and r[j - 1] == k:
            r[j] += .25
    c.note(k=float(k), form=repr(form), values=[float(x) for x in r])
    # arithmetic of inf and 1j yields NaN: set the parts
    z = np.zeros(len(r), dtype=complex); z.real = np.where(r >= 0, r, 0.); z.imag = np.where(r < 0, -r, 0.)
    got = D.extract_ks_waveguides(z, form, grid=g) if c.rng.random() < .7 else D.extract_ks_waveguides(z, form, g)
    _judge(c, got, lat, r, float(k))
    # the real variant is the same profile
    real = D.extract_ks_waveguides(r, form, grid=g)
    c.check(len(real) == len(got) and all(np.allclose(a, b, atol=1e-9) for a, b in zip(real, got)), f"real and complex profiles differ: {real}, {got}")


def _judge(c, got, lat, r, k, exact=True):
    res = abs(lat[0] - lat[1])
    c.check(isinstance(got, list), f"list of waveguides, got {type(got).__name__}")
    got = [tuple(float(x) for x in wg) for wg in got]
    c.check(all(len(wg) == 2 for wg in got), "pairs")
    flat = [x for wg in got for x in wg]
    c.check(all(np.isfinite(x) and -90 - 1e-9 <= x <= 90 + 1e-9 for x in flat), f"limits {flat}")
    c.check(all(a >= b - 1e-9 for a, b in zip(flat[:-1], flat[1:])), f"waveguides are ordered and disjoint: {got}")
    # every gridpoint is on the right side
    for j, y in enumerate(lat):
        inside = any(b - 1e-9 <= y <= a + 1e-9 for a, b in got)
        strict = any(b + 1e-9 < y < a - 1e-9 for a, b in got)
        if r[j] > k:
            c.check(inside, f"point {y}° with wavenumber {r[j]} > {k} is not in a waveguide {got}")
        elif r[j] < k:
            c.check(not strict, f"point {y}° with wavenumber {r[j]} < {k} is in a waveguide {got}")
    c.event("gridpoints classified", len(lat))
    want = [wg for wg in expected(lat, r, k)]
    # a pole with exact equality may form a waveguide of no extent
    got = [wg for wg in got if not (abs(wg[0] - wg[1]) < 1e-9 and any(abs(wg[0] - y) < 1e-9 and v == k for y, v in zip(lat, r)))]
    want = [wg for wg in want if not (abs(wg[0] - wg[1]) < 1e-9 and any(abs(wg[0] - y) < 1e-9 and v == k for y, v in zip(lat, r)))]
    if c.check(len(got) == len(want), f"{len(got)} waveguides {got}, expected {want}"):
        for a, b in zip(got, want):
            c.close(np.array(a), np.array(b[:2]), "limits of a waveguide", atol=1e-9 * 90)
            c.event("waveguides verified")


def from_state(c):
    w = world(c, [16, 20, 24, 36, 40, 60], truncate=0.)
    g, ref = w.grid, w.ref
    kind = pick(c.rng, ["jet", "random", "rest", "sbr"])
    if kind == "jet":
        s = bt.init.gaussian_jet(g, amplitude=.1 * abs(ref.omega) * ref.r, stdev_lat=20.) if ref.omega else bt.init.motionless(g)
    elif kind == "random":
        s = bt.State.from_vorticity(g, 0., ref.synth(flow(c, w, min(10, w.band), slope=2.)))
    elif kind == "rest":
        s = bt.init.motionless(g)
    else:
        s = bt.init.solid_body_rotation(g, amplitude=15.)
    k = pick(c.rng, [0, 1, 3, 4, 5, 7, 2.5])
    c.note(flow=kind, k=k)
    ks = s.stationary_wavenumber
    r = np.where(ks.imag != 0, -ks.imag, ks.real)
    for a in range(1, len(r)):
        if r[a] == k and r[a - 1] == k:
            return # plateau of equality
    got = s.extract_ks_waveguides(k)
    _judge(c, got, [float(x) for x in ref.lat], np.asarray(r, float), float(k))
    same = [D.extract_ks_waveguides(s, k), D.extract_ks_waveguides(ks, k, g)]
    for o in same:
        c.check(len(o) == len(got) and all(np.allclose(a, b, atol=1e-9) for a, b in zip(o, got)), f"waveguides of the state and its profile differ: {o}, {got}")
    c.event("states")


CASES = [(extraction, 200, 8000), (from_state, 30, 900)]
REQUIRED_EVENTS = {"gridpoints classified": 2000, "waveguides verified": 200, "states": 15}
