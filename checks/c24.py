"""C24: wave packet diagnostics."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations

RULE = "a case is a grid, field of known zonal waves and wavenumber range; expectation from a plain discrete Fourier sum"
D = bt.diagnostics


def dft(f):
    """Fourier coefficients of wavenumbers 0..n/2, by summation."""
    n = f.shape[1]
    x = 2 * np.pi * np.arange(n) / n
    return np.stack([(np.asarray(f, float) * np.exp(-1j * k * x)).sum(axis=1) for k in range(n // 2 + 1)], axis=1)


def restricted(f, kmin, kmax):
    """(restricted field, modulus of its analytic signal)"""
    n = f.shape[1]
    x = 2 * np.pi * np.arange(n) / n
    F = dft(f)
    z = np.zeros(f.shape, dtype=complex)
    for k in range(n // 2 + 1):
        if kmin <= k <= kmax:
            z += (1. if k == 0 or 2 * k == n else 2.) / n * F[:, k][:, None] * np.exp(1j * k * x)[None, :]
    return z.real, np.abs(z)


def _waves(c, g, kmax=None):
    """Sums of a few waves with latitude-dependent amplitudes."""
    n = g.nlon
    lam = 2 * np.pi * np.arange(n) / n
    f = np.zeros(g.shape)
    kmax = kmax or n // 2
    for _ in range(int(c.rng.integers(1, 6))):
        k = int(c.rng.integers(0, kmax + 1))
        f += c.rng.normal(size=(g.nlat, 1)) * np.cos(k * lam[None, :] + c.rng.uniform(0, 2 * np.pi, size=(g.nlat, 1)))
    return f * float(pick(c.rng, [1., 30., 1e-5]))


def _field(c, g):
    kind = pick(c.rng, ["waves", "waves", "noise", "any"])
    c.note(kind=kind)
    return _waves(c, g) if kind == "waves" else (c.rng.normal(size=g.shape) if kind == "noise" else any_field(c, g.shape, 10.))


def _range(c, n):
    a = int(c.rng.integers(0, n // 2))
    b = int(c.rng.integers(a, n // 2 + 1))
    return pick(c.rng, [(a, b), (a, b), (1, 20), (2, 10), (a, a), (0, n // 2), (1, n)])


def fourier(c):
    w = world(c, NLON_SMALL + [60, 72], truncate=0., legfunc=False)
    g = w.grid
    f = _field(c, g)
    rg = _range(c, g.nlon)
    c.note(range=rg)
    P = np.abs(dft(f)) ** 2
    lo, hi = rg[0], min(rg[1], g.nlon // 2)
    if lo > hi:
        return
    kw = {} if rg == (1, 20) and c.rng.random() < .7 else {"wavenumber_range": pick(c.rng, [rg, list(rg)])}
    got = np.asarray(D.dominant_wavenumber_fourier(f, g, smooth=None, **kw))
    c.check(got.shape == (g.nlat,), f"shape {got.shape}")
    for j in range(g.nlat):
        p = P[j, lo:hi + 1]
        k = got[j]
        ok = float(k).is_integer() and lo <= k <= hi
        c.check(ok and P[j, int(k)] >= p.max() - 1e-9 * P[j].max() - 1e-300, f"dominant wavenumber {k} in {rg} at row {j}, largest power at {lo + int(np.argmax(p))}")
        c.event("latitudes")
    # smoothing is the documented meridional filter
    sm = pick(c.rng, [("boxcar", 10), ("hann", 40), ("boxcar", 90.), ("hamming", float(c.rng.uniform(10, 100)))])
    a = D.dominant_wavenumber_fourier(f, g, smooth=sm, **kw) if sm != ("boxcar", 10) else D.dominant_wavenumber_fourier(f, g, **kw)
    c.close(a, g.filter_meridional(got.astype(float), *sm), "smoothed dominant wavenumber", atol=1e-9 * 50)
    c.event("fourier fields")


def wavelet_grids(c):
    """Waves of the planetary scale are resolved on fine grids, short ones on coarse grids."""
    fine = c.rng.random() < .5
    w = world(c, ([240, 240, 300, 360] if c.thorough else [240]) if fine else [12, 16, 20, 24, 28, 36, 40, 48], truncate=0., legfunc=False)
    g = w.grid
    n = g.nlon
    top = min(20, n // 2 - 1)
    ks = c.rng.integers(1, top + 1, size=g.nlat)
    if fine:
        ks[::2] = c.rng.integers(1, 4, size=len(ks[::2]))
    f = c.rng.uniform(.5, 20, size=(g.nlat, 1)) * np.cos(ks[:, None] * 2 * np.pi * np.arange(n)[None, :] / n + c.rng.uniform(0, 6, size=(g.nlat, 1)))
    c.note(ks=ks)
    got = np.asarray(D.dominant_wavenumber_wavelet(f, g, smooth=None), float)
    c.close(got, np.repeat(ks[:, None], n, axis=1).astype(float), "wavelet-based dominant wavenumber by latitude", atol=np.where(ks > n / 3, .25, .06)[:, None] * ks[:, None])
    c.event("wavelet grids")


def wavelet(c):
    w = world(c, [20, 24, 36, 60, 72], truncate=0., legfunc=False)
    g = w.grid
    n = g.nlon
    lam = 2 * np.pi * np.arange(n) / n
    k = int(c.rng.integers(1, min(n // 3, 20) + 1))
    amp = c.rng.uniform(.5, 20, size=(g.nlat, 1)); ph = c.rng.uniform(0, 6, size=(g.nlat, 1))
    f = amp * np.cos(k * lam[None, :] + ph)
    c.note(k=k)
    got = np.asarray(D.dominant_wavenumber_wavelet(f, g, smooth=None), float)
    c.close(got, np.full(g.shape, float(k)), f"wavelet-based dominant wavenumber of wave {k}", atol=.06 * k)
    # smoothing
    sm = ("hann", 40, 10) if c.rng.random() < .4 else (pick(c.rng, ["hann", "boxcar", "hamming", "blackman"]), float(pick(c.rng, [15., 20, 30, 40, 75., 120.])), float(pick(c.rng, [10., 20, 20, 30, 60, 90.])))
    c.note(smooth=sm)
    kw = {} if sm == ("hann", 40, 10) and c.rng.random() < .8 else {"smooth": sm}
    a = D.dominant_wavenumber_wavelet(f, g, **kw)
    c.close(a, g.filter_zonal(g.filter_meridional(got, sm[0], sm[2]), sm[0], sm[1]), "smoothed wavelet-based wavenumber", atol=1e-6 * k)
    # every latitude has its own wave
    sm2, kw2 = sm, kw
    ks = c.rng.integers(1, min(n // 3, 20) + 1, size=g.nlat)
    f = amp * np.cos(ks[:, None] * lam[None, :] + ph)
    got = np.asarray(D.dominant_wavenumber_wavelet(f, g, smooth=None), float)
    c.close(got, np.repeat(ks[:, None], n, axis=1).astype(float), "wavelet-based dominant wavenumber by latitude", atol=.06 * ks[:, None])
    a = D.dominant_wavenumber_wavelet(f, g, **kw2)
    c.close(a, g.filter_zonal(g.filter_meridional(got, sm2[0], sm2[2]), sm2[0], sm2[1]), "smoothed wavelet-based wavenumber by latitude", atol=1e-6 * np.max(ks))
    # a packet of short waves in one half of a long wave moves along with the field
    if n >= 36:
        k1, k2 = 3, min(n // 3, 12)
        env = np.exp(-.5 * (((lam + np.pi) % (2 * np.pi) - np.pi) / .5) ** 2)
        f1 = np.cos(k1 * lam) * .5 + 2 * env * np.cos(k2 * lam)
        f = np.repeat(f1[None, :], g.nlat, axis=0)
        base = np.asarray(D.dominant_wavenumber_wavelet(f, g, smooth=None), float)
        s = int(c.rng.integers(1, n))
        r = np.asarray(D.dominant_wavenumber_wavelet(np.roll(f, s, axis=1), g, smooth=None), float)
        off = np.abs(np.roll(r, -s, axis=1) / base - 1) > .08
        c.check(off.mean() < .15, f"dominant wavenumber does not move with the field: {off.mean():.2f} of the points differ")
        i0, i1 = s % n, (s + n // 2) % n
        c.check(abs(r[0, i0] / k2 - 1) < .2, f"dominant wavenumber {r[0, i0]} in the packet of wavenumber {k2}")
        c.check(abs(r[0, i1] / k1 - 1) < .25, f"dominant wavenumber {r[0, i1]} opposite of the packet, {k1} expected")
        c.event("packets")
    c.event("wavelet fields")


def envelope(c):
    w = world(c, NLON_SMALL + [60, 72], truncate=0., legfunc=False)
    g = w.grid
    f = _field(c, g)
    rg = _range(c, g.nlon)
    c.note(range=rg)
    kw = {} if rg == (2, 10) and c.rng.random() < .7 else {"wavenumber_range": rg}
    got = np.asarray(D.envelope_hilbert(f, **kw), float)
    x, want = restricted(f, *rg)
    sc = np.max(np.abs(f)) + 1e-300
    eps = 1e-5 if np.asarray(f).dtype == np.float32 else 1e-9
    c.close(got, want, f"envelope of wavenumbers {rg}", atol=eps * sc)
    c.check(np.all(got >= np.abs(x) - eps * sc), "envelope is below the restricted field")
    s = int(c.rng.integers(1, g.nlon))
    c.close(D.envelope_hilbert(np.roll(f, s, axis=1), **kw), np.roll(got, s, axis=1), "envelope moves with the field", atol=eps * sc)
    # a single wave
    n = g.nlon
    k = int(c.rng.integers(1, n // 2)); amp = c.rng.uniform(.5, 20, size=(g.nlat, 1))
    one = amp * np.cos(k * 2 * np.pi * np.arange(n)[None, :] / n + c.rng.uniform(0, 6, size=(g.nlat, 1)))
    inside = rg[0] <= k <= rg[1]
    c.close(D.envelope_hilbert(one, rg), np.repeat(amp, n, axis=1) * inside, f"envelope of the single wave {k} in {rg}", atol=1e-9 * 20)
    c.event("envelopes")


def accessor(c):
    w = world(c, NLON_SMALL + [48], truncate=.2)
    s = bt.State.from_vorticity(w.grid, 0., w.ref.synth(flow(c, w, slope=.5)))
    v = np.asarray(s.v, float)
    c.close(s.v_envelope_hilbert, restricted(v, 2, 10)[1], "envelope of the meridional wind (wavenumbers 2 to 10)", atol=2e-5 * np.max(np.abs(v)))
    c.event("states")


def array_kinds(c):
    w = world(c, NLON_SMALL, legfunc=False, truncate=0.)
    g = w.grid
    f = any_field(c, g.shape, 10. ** float(c.rng.uniform(-6, 6)))
    kmax = int(c.rng.integers(2, g.nlon // 2))
    same_for_representations(c, lambda x: bt.diagnostics.envelope_hilbert(x, (1, kmax)), [f], "envelope", rtol=1e-5)
    f = c.rng.normal(size=g.shape) + 3 * np.cos(int(c.rng.integers(1, 4)) * g.lam2)
    kinds = ["fortran", "strided", "reversed", "readonly", "transposed", "reused", "recycled", "mixed"]
    same_for_representations(c, lambda x: bt.diagnostics.dominant_wavenumber_fourier(x, g, wavenumber_range=(1, kmax)), [f], "dominant wavenumber", rtol=1e-9, kinds=kinds)
    c.event("array kinds")


QUICK_SCALE = 4
CASES = [(array_kinds, 30, 800), (fourier, 60, 2500), (wavelet, 12, 160), (wavelet_grids, 6, 60), (envelope, 60, 2500), (accessor, 15, 400)]
REQUIRED_EVENTS = {"latitudes": 500, "wavelet fields": 10, "wavelet grids": 8, "packets": 4, "envelopes": 50, "states": 10}
