"""Float64 reference of the sphere that shares nothing with the code under test.

Fields are real parts of sums c[n,m] * P_n^m(colatitude) * exp(i m lon) with the orthonormal functions of
scipy.special.sph_harm_y. Degrees are limited to nlat-2, which is what a regular latitude grid carries."""
import functools
import numpy as np
from scipy.special import sph_harm_y


class RefSphere:

    def __init__(self, nlon, rsphere=1., omega=0.):
        self.nlon = nlon
        self.nlat = nlon // 2 + 1
        self.r = float(rsphere)
        self.omega = float(omega)
        self.nmax = self.nlat - 2
        self.lat = np.array([90. - 180. * j / (self.nlat - 1) for j in range(self.nlat)])
        self.lon = np.array([360. * i / nlon for i in range(nlon)])
        self.phi = np.deg2rad(self.lat)
        self.lam = np.deg2rad(self.lon)
        self.theta = np.linspace(0., np.pi, self.nlat)
        self.theta_d = np.clip(self.theta, 1e-7, np.pi - 1e-7) # limits at the poles
        self.P, self.dP, self.PoS = _tables(self.nlat)
        self.n = np.arange(self.nmax + 1)
        self.eig = self.n * (self.n + 1.) / self.r ** 2
        self.f2 = 2. * self.omega * np.sin(self.phi)[:, None] * np.ones((1, nlon))

    @property
    def shape(self):
        return self.nlat, self.nlon

    # -- coefficients --------------------------------------------------------

    def zeros(self):
        return np.zeros((self.nmax + 1, self.nmax + 1), dtype=complex)

    def random(self, rng, nmax, nmin=1, slope=1., amplitude=1., zonal=False, mmax=None, generic=False):
        """Random coefficients, scaled so that the field's maximum modulus is about `amplitude`.

        Unless `generic`, every fourth field is a special one (symmetric in some way, a single wave, ...)."""
        nmax = min(nmax, self.nmax)
        keep = lambda n, m: True
        if not (generic or zonal or mmax is not None) and rng.random() < .25:
            kind = int(rng.integers(6))
            n1 = int(rng.integers(nmin, nmax + 1))
            m1 = int(rng.integers(0, n1 + 1))
            keep = [lambda n, m: m == 0, lambda n, m: (n, m) == (n1, m1), lambda n, m: (n + m) % 2 == 0,
                    lambda n, m: (n + m) % 2 == 1, lambda n, m: m == m1, lambda n, m: n == m][kind]
        c = self.zeros()
        for n in range(nmin, nmax + 1):
            for m in range(0, (0 if zonal else n) + 1):
                if (mmax is not None and m > mmax) or not keep(n, m):
                    continue
                z = rng.normal() + 1j * rng.normal()
                c[n, m] = (z.real if m == 0 else z) / (1. + n) ** slope
        peak = np.max(np.abs(self.synth(c)))
        return c * (amplitude / peak) if peak > 0 else c

    def _sum(self, c, table):
        out = np.zeros(self.shape)
        for m in range(self.nmax + 1):
            prof = table[m] @ c[:, m]
            out += (prof[:, None] * np.exp(1j * m * self.lam)[None, :]).real
        return out

    def synth(self, c):
        return self._sum(c, self.P)

    def analysis(self, f):
        """Coefficients of a band-limited (degree <= nlat-2) field by least squares per zonal wavenumber."""
        f = np.asarray(f, dtype=float)
        F = np.fft.fft(f, axis=1) / self.nlon
        c = self.zeros()
        for m in range(self.nmax + 1):
            g = F[:, m] * (1. if m == 0 else 2.)
            sol = self._pinv(m) @ g
            c[m:, m] = sol
        return c

    def _pinv(self, m):
        return _pinv_table(self.nlat, m)

    # -- calculus ------------------------------------------------------------

    def laplace(self, c):
        return -c * self.eig[:, None]

    def inv_laplace(self, c):
        out = np.zeros_like(c)
        out[1:] = -c[1:] / self.eig[1:, None]
        return out

    def gradient(self, c):
        """(zonal, meridional) components of the gradient on the grid."""
        m = np.arange(self.nmax + 1)[None, :]
        gx = self._sum(1j * m * c, self.PoS) / self.r
        gy = -self._sum(c, self.dP) / self.r
        return gx, gy

    def wind(self, c_vo, c_div=None):
        px, py = self.gradient(self.inv_laplace(c_vo))
        u, v = -py, px
        if c_div is not None:
            cx, cy = self.gradient(self.inv_laplace(c_div))
            u, v = u + cx, v + cy
        return u, v

    def c_fcor(self):
        """Coefficients of the planetary vorticity."""
        c = self.zeros()
        c[1, 0] = 2. * self.omega / np.sqrt(3. / (4. * np.pi))
        return c

    def flux_divergence(self, c_pv):
        """div(u q) = u . grad q (non-divergent wind), on the grid."""
        u, v = self.wind(c_pv - self.c_fcor())
        qx, qy = self.gradient(c_pv)
        return u * qx + v * qy

    def diffuse(self, c, dt, coeff, order):
        return c / (1. + dt * coeff * self.eig[:, None] ** order)

    def truncate(self, c, ntrunc):
        c = c.copy()
        c[ntrunc + 1:] = 0.
        return c


@functools.lru_cache(maxsize=64)
def _tables(nlat):
    nmax = nlat - 2
    theta = np.linspace(0., np.pi, nlat)
    td = np.clip(theta, 1e-7, np.pi - 1e-7)
    P = np.zeros((nmax + 1, nlat, nmax + 1))
    dP = np.zeros_like(P)
    PoS = np.zeros_like(P)
    for m in range(nmax + 1):
        for n in range(m, nmax + 1):
            P[m, :, n] = sph_harm_y(n, m, theta, 0.).real
            p = sph_harm_y(n, m, td, 0.).real
            PoS[m, :, n] = p / np.sin(td)
            # dP/dtheta = m cot P + sqrt((n-m)(n+m+1)) P^{m+1}
            d = m * np.cos(td) / np.sin(td) * p
            if m < n:
                d = d + np.sqrt((n - m) * (n + m + 1.)) * sph_harm_y(n, m + 1, td, 0.).real
            dP[m, :, n] = d
    return P, dP, PoS


@functools.lru_cache(maxsize=4096)
def _pinv_table(nlat, m):
    P = _tables(nlat)[0]
    return np.linalg.pinv(P[m][:, m:])
