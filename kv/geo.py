"""Reference motion written from the geodesic equations (independent of the code): the radial and polar motion is integrated
in the angles psi, chi with r = ra..rb turning at psi = 0, pi and cos(theta) = sqrt(z-) cos(chi), whose rates are analytic
functions; Fourier antiderivatives give Mino time as a function of the angle to rounding error."""
import math
import numpy as np
from mpmath import mp, mpf
from . import spec


class Series:
    """antiderivative, zero at 0, of an even 2 pi-periodic analytic function"""

    def __init__(self, h, n=64):
        from scipy.fft import dct
        while True:
            u = (np.arange(n) + 0.5) * math.pi / n
            c = dct(h(u), type=2)[:n // 2] / n
            if abs(c[-8:]).max() < 1e-15 * abs(c).max() or n >= 8192:
                break
            n *= 2
        k = np.arange(1, len(c))
        keep = abs(c[1:]) > 1e-16 * abs(c).max()
        self.c0, self.k, self.ck = c[0] / 2, k[keep], c[1:][keep]

    def at(self, u):
        u = np.asarray(u, float)
        return self.c0 * u + (self.ck / self.k * np.sin(np.multiply.outer(u, self.k))).sum(-1)


class Angle(Series):
    """lambda(angle) for a rate d(angle)/d(lambda) = f(angle) that is even and 2 pi-periodic"""

    def __init__(self, f):
        super().__init__(lambda u: 1 / f(u))
        self.f = f
        self.upsilon = 1 / self.c0
        self.lam = self.at

    def __call__(self, lam):
        """the angle at Mino time lam (angle 0 at lam 0)"""
        lam = np.asarray(lam, float)
        u = lam / self.c0
        lo, hi = np.floor(u / math.pi) * math.pi, (np.floor(u / math.pi) + 1) * math.pi
        for _ in range(14):
            g = self.lam(u) - lam
            lo = np.where(g < 0, u, lo)
            hi = np.where(g > 0, u, hi)
            new = u - g * self.f(u)
            new = np.where((new < lo) | (new > hi), (lo + hi) / 2, new)
            if np.all(abs(new - u) <= 2e-14 * (1 + abs(u))):
                u = new
                break
            u = new
        return u


def roots4(a, E, L, Q):
    """real roots ascending, complex roots (im > 0 first) of the radial potential, 30 digits"""
    with mp.workdps(30):
        k = spec.R_coefficients(mpf(a), mpf(E), mpf(L), mpf(Q))
        rs = mp.polyroots(k[::-1], maxsteps=300, extraprec=200)
        sc = max(abs(z) for z in rs)
        re = sorted(float(mp.re(z)) for z in rs if abs(mp.im(z)) < mpf(10) ** -12 * sc)
        im = sorted(((float(mp.re(z)), float(mp.im(z))) for z in rs if abs(mp.im(z)) >= mpf(10) ** -12 * sc), key=lambda z: -z[1])
    return re, [complex(*z) for z in im]


def region(a, E, L, Q, r0=None):
    """(ra, rb, other roots) of the allowed region containing r0, or of the plunging region (the one that encloses the inner
    horizon) if r0 is None"""
    re, im = roots4(a, E, L, Q)
    rm = 1 - math.sqrt(1 - a * a)
    target = rm if r0 is None else r0
    for i in range(len(re) - 1, 0, -1):
        if len(re) == 4 and i == 2:
            continue
        if re[i - 1] <= target <= re[i]:
            rest = [re[j] for j in range(len(re)) if j not in (i, i - 1)] + im
            return re[i - 1], re[i], rest
    return None


class Motion:
    def __init__(self, a, E, L, Q, ra, rb, rest, zm=None, bzp=None, qr0=0.0, qth0=0.0):
        self.a, self.E, self.L, self.Q = a, E, L, Q
        self.ra, self.rb = ra, rb
        om = 1 - E * E
        m, d = (ra + rb) / 2, (rb - ra) / 2
        self.m, self.d = m, d
        s = rest[0] + rest[1]
        p = rest[0] * rest[1]
        s, p = s.real, p.real
        self.frate = lambda u: np.sqrt(om * ((m - d * np.cos(u)) ** 2 - s * (m - d * np.cos(u)) + p))
        b = a * a * om
        if zm is None:
            A = Q + b + L * L
            disc = math.sqrt(A * A - 4 * b * Q)
            bzp = (A + disc) / 2
            zm = Q / bzp
        self.zm, self.bzp, self.b = zm, bzp, b
        self.grate = lambda u: np.sqrt(bzp - b * zm * np.cos(u) ** 2)
        self.R, self.T = Angle(self.frate), Angle(self.grate)
        self.Yr, self.Yth = self.R.upsilon, self.T.upsilon
        self.lr0, self.lt0 = qr0 / self.Yr, qth0 / self.Yth

    def angles(self, lam):
        return self.R(np.asarray(lam) + self.lr0), self.T(np.asarray(lam) + self.lt0)

    def r_theta(self, lam):
        u, v = self.angles(lam)
        return self.m - self.d * np.cos(u), np.arccos(np.sqrt(self.zm) * np.cos(v))

    def velocities(self, lam):
        """(dr/dlambda, dtheta/dlambda)"""
        u, v = self.angles(lam)
        c = np.sqrt(self.zm) * np.cos(v)
        return self.d * np.sin(u) * self.frate(u), np.sqrt(self.zm) * np.sin(v) * self.grate(v) / np.sqrt(1 - c * c)

    def rates(self, lam):
        r, th = self.r_theta(lam)
        z2 = np.cos(th) ** 2
        return spec.dt(self.a, self.E, self.L, r, z2), spec.dphi(self.a, self.E, self.L, r, z2)

    def series(self):
        """(t_r, t_theta, phi_r, phi_theta) as functions of psi / chi; only when r stays away from the horizons"""
        if not hasattr(self, "_ser"):
            a, E, L = self.a, self.E, self.L
            r = lambda u: self.m - self.d * np.cos(u)
            D = lambda r: r * r - 2 * r + a * a
            z2 = lambda v: self.zm * np.cos(v) ** 2
            self._ser = (Series(lambda u: ((r(u)**2 + a*a) / D(r(u)) * (E * (r(u)**2 + a*a) - a * L) + a * L) / self.frate(u)),
                         Series(lambda v: -a * a * E * (1 - z2(v)) / self.grate(v)),
                         Series(lambda u: (a / D(r(u)) * (E * (r(u)**2 + a*a) - a * L) - a * E) / self.frate(u)),
                         Series(lambda v: L / (1 - z2(v)) / self.grate(v)))
        return self._ser

    def mino_frequencies(self):
        tr, tt, pr, pt = self.series()
        return self.Yr, self.Yth, self.Yr * pr.c0 + self.Yth * pt.c0, self.Yr * tr.c0 + self.Yth * tt.c0

    def t_phi(self, lam):
        """t, phi with value 0 at Mino time 0"""
        tr, tt, pr, pt = self.series()
        u, v = self.angles(lam)
        u0, v0 = self.angles(0.0)
        return tr.at(u) - tr.at(u0) + tt.at(v) - tt.at(v0), pr.at(u) - pr.at(u0) + pt.at(v) - pt.at(v0)

    def advance(self, l0, l1, pieces=None):
        """(t(l1)-t(l0), phi(l1)-phi(l0)) by composite Gauss-Legendre"""
        n = pieces or int(max(4, 1 + abs(l1 - l0) * max(self.Yr, self.Yth) * 2))
        x, w = np.polynomial.legendre.leggauss(24)
        e = np.linspace(l0, l1, n + 1)
        h = (e[1:] - e[:-1]) / 2
        pts = (e[:-1] + h)[:, None] + h[:, None] * x
        ft, fp = self.rates(pts.ravel())
        ww = (h[:, None] * w).ravel()
        return float((ft * ww).sum()), float((fp * ww).sum())


def stable_motion(a, p, e, x, qr0=0.0, qth0=0.0, c=None):
    """reference for (a,p,e,x) with a >= 0"""
    c = c or spec.constants(a, p, e, x)
    rr = spec.radial_roots(a, p, e, x, c)
    zm, bzp = spec.polar_roots(a, *c, x)
    E, L, Q = (float(v) for v in c)
    r1, r2, r3, r4 = (float(v) for v in rr)
    M = Motion(a, E, L, Q, r2, r1, [r3, r4], float(zm), float(bzp), qr0, qth0)
    om = float(1 - c[0] ** 2)
    M.frate = lambda u: np.sqrt(om * (M.m - M.d * np.cos(u) - r3) * (M.m - M.d * np.cos(u) - r4))
    M.R = Angle(M.frate)
    M.Yr = M.R.upsilon
    M.lr0 = qr0 / M.Yr
    return M
