"""C03: grid/spectral transforms."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations

RULE = "a case is a configuration and a field; the float64 reference sphere provides the expected field"
TOL = 2e-5


def _rt(g, f):
    return g.to_grid(g.to_spectral(f))


def band_limited(c):
    w = world(c, NLON_ALL)
    co = w.ref.random(c.rng, int(c.rng.integers(1, w.band + 1)), 0, float(c.rng.uniform(0, 2)), float(pick(c.rng, [1., 1e-5, 1e4])))
    f = w.ref.synth(co)
    c.event("round trips")
    c.close(_rt(w.grid, f), f, "round trip of a band-limited field", rtol=TOL)


def single_harmonic(c):
    w = world(c, NLON_SMALL)
    n = int(c.rng.integers(0, w.ref.nmax + 1)); m = int(c.rng.integers(0, n + 1))
    c.note(n=n, m=m)
    co = w.ref.zeros(); co[n, m] = 1. if m == 0 else np.exp(1j * c.rng.uniform(0, 6))
    f = w.ref.synth(co)
    want = f if n <= w.ntrunc else 0 * f
    c.event("harmonics kept" if n <= w.ntrunc else "harmonics removed")
    c.close(_rt(w.grid, f), want, f"harmonic n={n} m={m} with truncation {w.ntrunc}", atol=TOL * np.max(np.abs(f)))


def fine(c):
    """Grids as fine as used in practice."""
    w = world(c, VERY_FINE + [432, 480], truncate=.3)
    n = int(w.ref.nmax - pick(c.rng, [0, 0, 1, 2, 10, w.ref.nmax - 1])); m = int(pick(c.rng, [0, 1, n, n - 1, c.rng.integers(0, n + 1)]))
    m = min(max(m, 0), n)
    c.note(n=n, m=m)
    co = w.ref.zeros(); co[n, m] = 1. if m == 0 else np.exp(1j * c.rng.uniform(0, 6))
    f = w.ref.synth(co)
    c.close(_rt(w.grid, f), f if n <= w.ntrunc else 0 * f, f"harmonic n={n} m={m} with truncation {w.ntrunc}", atol=2 * TOL * np.max(np.abs(f)))
    f = w.ref.synth(w.ref.random(c.rng, w.band, 0, float(c.rng.uniform(0, 2))))
    c.close(_rt(w.grid, f), f, "round trip of a band-limited field", atol=TOL * np.max(np.abs(f)))
    c.event("fine grids")


def truncation(c):
    w = world(c, NLON_SMALL + NLON_MID, truncate=1.)
    co = w.ref.random(c.rng, w.ref.nmax, 0, .5)
    f = w.ref.synth(co)
    want = w.ref.synth(w.ref.truncate(co, w.ntrunc))
    c.event("truncations")
    c.close(_rt(w.grid, f), want, "components above the truncation are removed, others kept", atol=TOL * np.max(np.abs(f)))
    full = bt.Grid(360. / w.ref.nlon, rsphere=w.ref.r, omega=w.ref.omega)
    c.close(_rt(w.grid, _rt(full, f)), want, "truncating after a full round trip", atol=TOL * np.max(np.abs(f)))


def laws(c):
    """Linearity, idempotence, independence of radius and mode for arbitrary fields."""
    w = world(c, NLON_SMALL, truncate=.7)
    g = w.grid
    a, b = any_field(c, g.shape), any_field(c, g.shape)
    x, y = c.rng.normal(size=2)
    A, B = g.to_spectral(a), g.to_spectral(b)
    scale = float(np.max(np.abs(np.asarray(a, float)))) + float(np.max(np.abs(np.asarray(b, float)))) + 1e-300
    t = TOL * scale * 10
    c.close(g.to_spectral(x * np.asarray(a, float) + y * np.asarray(b, float)), x * A + y * B, "to_spectral is linear", atol=t)
    ra = g.to_grid(A)
    c.close(g.to_grid(x * A + y * B), x * ra + y * g.to_grid(B), "to_grid is linear", atol=t)
    c.event("laws")
    if w.ntrunc <= w.ref.nmax:
        # the highest degree of the latitudes is beyond what the statement covers
        r1 = np.asarray(ra)
        c.close(_rt(g, r1), r1, "the round trip is idempotent", atol=t)
        c.close(g.to_spectral(r1), A, "the spectrum survives the round trip", atol=t)
    other = bt.Grid(360. / w.ref.nlon, rsphere=w.ref.r * float(pick(c.rng, [.1, 2., 1e3])), omega=0., ntrunc=w.ntrunc,
                    legfunc=pick(c.rng, ["stored", "computed"]))
    c.close(other.to_spectral(a), A, "spectrum depends on neither radius nor mode", atol=t)
    c.close(other.to_grid(A), ra, "synthesis depends on neither radius nor mode", atol=t)
    c.check(np.asarray(ra).shape == g.shape and np.asarray(A).ndim == 1 and np.asarray(A).size == (w.ntrunc + 1) * (w.ntrunc + 2) // 2,
            "spectrum has (T+1)(T+2)/2 components")


def interleaved(c):
    """Several grids used alternately give what each gives alone."""
    ws = [world(c, NLON_SMALL) for _ in range(3)]
    data = []
    for w in ws:
        co = w.ref.random(c.rng, w.band, 0, 1.)
        data.append((w, co, w.ref.synth(co)))
    order = c.rng.permutation(9) % 3
    c.note(order=order.tolist(), grids=[w.params() for w in ws])
    spec = {}
    for k in order:
        w, co, f = data[k]
        spec.setdefault(k, []).append(w.grid.to_spectral(f))
    for k in order[::-1]:
        w, co, f = data[k]
        c.close(w.grid.to_grid(spec[k].pop()), f, "round trip interleaved with other grids", rtol=TOL)
        c.event("round trips")


def array_kinds(c):
    w = world(c, NLON_SMALL)
    g = w.grid
    f = any_field(c, g.shape, 10. ** float(c.rng.uniform(-6, 6)))
    same_for_representations(c, lambda x: (g.to_spectral(x), g.to_grid(g.to_spectral(x))), [f], "to_spectral")
    # spectral buffers that are reused
    a, b = g.to_spectral(c.rng.normal(size=g.shape)), g.to_spectral(c.rng.normal(size=g.shape))
    want = np.array(g.to_grid(b.copy()))
    buf = np.array(a)
    first = np.array(g.to_grid(buf))
    buf[...] = b
    c.close(g.to_grid(buf), want, "to_grid of a reused buffer", rtol=1e-5)
    c.close(g.to_grid(np.array(a)), first, "to_grid after other transforms", rtol=1e-5)
    big = np.zeros(2 * b.size, dtype=b.dtype); big[::2] = b
    c.close(g.to_grid(big[::2]), want, "to_grid of a strided spectrum", rtol=1e-5)
    c.close(g.to_grid(b.astype(complex)), want, "to_grid of a double precision spectrum", rtol=1e-5)


def offsets(c):
    """Fields whose mean is large or small compared to their variations."""
    w = world(c, NLON_SMALL)
    co = w.ref.random(c.rng, w.band, 1, 1.)
    mean = float(c.rng.choice([-1, 1])) * 10. ** float(c.rng.uniform(-3, 6))
    scale = 10. ** float(c.rng.uniform(-12, 12))
    c.note(mean=mean, scale=scale)
    f = scale * (mean + w.ref.synth(co))
    c.event("round trips")
    c.close(_rt(w.grid, f), f, "round trip of a field with offset", rtol=TOL)
    s = w.grid.to_spectral(f)
    a0 = complex(w.grid.to_spectral(np.full(w.grid.shape, scale * mean))[0])
    c.close(complex(s[0]), a0, "mean component does not depend on the variations", atol=TOL * scale * (abs(mean) + 1) * 2)
    if mean > 100 or mean < -100:
        return
    z = w.ref.synth(co)
    c.close(_rt(w.grid, f) / scale - mean, z, "variations survive", atol=TOL * (1 + abs(mean)))


CASES = [(fine, 1, 6), (array_kinds, 30, 800), (offsets, 30, 800), (band_limited, 80, 2500), (single_harmonic, 120, 4000), (truncation, 40, 1200), (laws, 50, 1500), (interleaved, 10, 300)]
REQUIRED_EVENTS = {"fine grids": 10, "round trips": 60, "harmonics kept": 40, "harmonics removed": 2, "truncations": 20}
