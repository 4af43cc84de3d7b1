"""C25: smoothing based on a wavenumber field."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations

RULE = "a case is a grid size, field and wavenumbers by gridpoint; expectation from the direct weighted sum at every gridpoint"
D = bt.diagnostics


def half_width(k, n):
    k = min(max(float(k), 1.), n / 2)
    h = n / k
    return int(np.floor(h)), abs(h - round(h)) < 1e-9 and not float(k).is_integer()


def reference(f, K):
    """(filtered, points whose width is decided by rounding)"""
    f = np.asarray(f, float)
    n = f.shape[1]
    out, unsure = np.zeros(f.shape), np.zeros(f.shape, dtype=bool)
    for j in range(f.shape[0]):
        for i in range(n):
            h, unsure[j, i] = half_width(K[j, i], n)
            d = np.arange(-h, h + 1)
            wgt = np.cos(np.pi * d / (2 * h)) ** 2 # Hann: half of the maximum at h/2, full width at half maximum h
            wgt /= wgt.sum()
            out[j, i] = np.sum(wgt * f[j, (i + d) % n])
    return out, unsure


def _wavenumbers(c, shape, kind=None):
    nlat, n = shape
    rng = c.rng
    kind = kind or pick(rng, ["fraction", "integer", "outside", "profile", "profile int", "const", "f32"])
    c.note(wavenumbers=kind)
    if kind == "integer":
        return rng.integers(1, n // 2 + 1, size=shape)
    if kind == "outside":
        return rng.uniform(-3, n, size=shape)
    if kind == "profile":
        return rng.uniform(.5, n / 2 + 1, size=nlat)
    if kind == "profile int":
        return rng.integers(0, n // 2 + 2, size=nlat)
    if kind == "const":
        return np.full(shape, float(rng.uniform(1, 8)))
    if kind == "f32":
        return rng.uniform(1, n / 3, size=shape).astype(np.float32)
    return rng.uniform(1, n / 3, size=shape)


def smoothing(c):
    n = int(pick(c.rng, [8, 10, 12, 16, 18, 20, 24, 36, 40, 9, 15]))
    nlat = int(pick(c.rng, [n // 2 + 1, 3, 1, n]))
    c.note(shape=(nlat, n))
    f = any_field(c, (nlat, n), 10.)
    K = _wavenumbers(c, (nlat, n))
    got = np.asarray(D.filter_by_wavenumber(f, K))
    K2 = np.asarray(K) if np.ndim(K) == 2 else np.repeat(np.asarray(K)[:, None], n, axis=1)
    want, unsure = reference(f, K2)
    if not c.check(got.shape == f.shape, f"shape {got.shape}"):
        return
    sc = np.max(np.abs(f)) + 1e-300
    eps = 1e-5 if f.dtype == np.float32 else 1e-9
    c.close(np.where(unsure, 0, got), np.where(unsure, 0, want), "filtered field", atol=eps * sc)
    F = np.asarray(f, float)
    c.check(np.all(got <= F.max(axis=1, keepdims=True) + eps * sc) and np.all(got >= F.min(axis=1, keepdims=True) - eps * sc), "filtered values leave the range of their latitude circle")
    c.event("gridpoints verified", int((~unsure).sum()))
    # profile and field form
    if np.ndim(K) == 1:
        c.close(D.filter_by_wavenumber(f, K2), got, "profile and field of wavenumbers", atol=eps * sc)
        c.event("profiles")
    # constants by latitude are preserved
    const = np.repeat(c.rng.normal(size=(nlat, 1)) * 5, n, axis=1)
    c.close(D.filter_by_wavenumber(const, K), const, "constants are preserved", atol=1e-9 * 5)
    # each latitude on its own
    j = int(c.rng.integers(nlat))
    g = np.array(F); g[np.arange(nlat) != j] = c.rng.normal(size=(nlat - 1, n)) * sc
    Kj = K2.astype(float).copy(); Kj[np.arange(nlat) != j] = c.rng.uniform(1, n / 2, size=(nlat - 1, n))
    c.close(np.asarray(D.filter_by_wavenumber(g, Kj))[j][~unsure[j]], got[j][~unsure[j]], "a latitude depends on itself only", atol=eps * sc)
    # moves along with the field
    s = int(c.rng.integers(1, n))
    c.close(D.filter_by_wavenumber(np.roll(F, s, axis=1), np.roll(K2, s, axis=1)), np.roll(got, s, axis=1), "filter moves with the field", atol=eps * sc)
    if nlat > 1:
        c.raises(lambda: D.filter_by_wavenumber(f, np.ones(nlat + 1)), "profile of wrong size refused")


def accessor(c):
    w = world(c, [16, 20, 24, 36, 48, 60, 72], truncate=.2) # the 10 degree smoothing of the wavenumbers matters on the finer ones
    g, ref = w.grid, w.ref
    s = bt.State.from_vorticity(g, 0., ref.synth(flow(c, w, slope=float(pick(c.rng, [.7, 0., -.5])))))
    got = np.asarray(s.falwa_filtered, float)
    K = 2 * np.asarray(D.dominant_wavenumber_fourier(s.v, g), float)
    A = np.asarray(s.falwa, float)
    want, unsure = reference(A, np.repeat(K[:, None], g.nlon, axis=1))
    # smoothed averages of integers: exactly representable widths are decided by rounding
    near = np.abs(g.nlon / np.clip(K, 1, g.nlon / 2) - np.round(g.nlon / np.clip(K, 1, g.nlon / 2))) < 1e-6
    near &= np.abs(K - np.round(K)) > 0
    keep = ~unsure & ~near[:, None]
    c.close(np.where(keep, got, 0), np.where(keep, want, 0), "filtered wave activity", atol=1e-6 * np.max(np.abs(A)) + 1e-12 * ref.r * np.ptp(s.pv))
    c.event("states")
    c.event("latitudes with fractional wavenumbers", int((np.abs(K - np.round(K)) > .01).sum()))


def array_kinds(c):
    w = world(c, NLON_SMALL, legfunc=False, truncate=0.)
    g = w.grid
    f = any_field(c, g.shape, 10. ** float(c.rng.uniform(-6, 6)))
    k = c.rng.uniform(.5, g.nlon / 2 + 2, size=g.shape if c.rng.random() < .5 else g.nlat)
    same_for_representations(c, lambda x: bt.diagnostics.filter_by_wavenumber(x, k.copy()), [f], "wavenumber filter", rtol=1e-5, n=2)
    kinds = ["fortran", "strided", "reversed", "readonly", "transposed", "broadcast", "reused", "recycled"]
    same_for_representations(c, lambda x: bt.diagnostics.filter_by_wavenumber(np.array(f, float), x), [k], "wavenumber filter (wavenumbers)", rtol=1e-9, n=2, kinds=kinds)
    c.event("array kinds")


CASES = [(array_kinds, 20, 500), (smoothing, 80, 3000), (accessor, 20, 600)]
REQUIRED_EVENTS = {"gridpoints verified": 5000, "profiles": 10, "states": 15, "latitudes with fractional wavenumbers": 50}
