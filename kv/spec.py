"""Specification functions written from the physics (not from the code): Kerr metric, geodesic potentials, constants of
motion by solving R(r1)=R(r2)=0, the separatrix by the double-root condition, Mino frequencies by quadrature."""
import math
import random
from mpmath import mp, mpf
import numpy as np

DPS = 40


def R(a, E, L, Q, r):
    return (E * (r**2 + a**2) - a * L) ** 2 - (r**2 - 2 * r + a**2) * (r**2 + (a * E - L) ** 2 + Q)


def dR(a, E, L, Q, r):
    return 4 * E * r * (E * (r**2 + a**2) - a * L) - (2 * r - 2) * (r**2 + (a * E - L) ** 2 + Q) \
        - (r**2 - 2 * r + a**2) * 2 * r


def R_coefficients(a, E, L, Q):
    """ascending"""
    return [-(a**2) * Q, 2 * ((a * E - L) ** 2 + Q), a**2 * (E**2 - 1) - L**2 - Q, 2, E**2 - 1]


def Z(a, E, L, Q, z):
    """(dz/dlambda)^2 for z = cos(theta)"""
    return Q * (1 - z**2) - z**2 * (a**2 * (1 - E**2) * (1 - z**2) + L**2)


def Z_coefficients(a, E, L, Q):
    """ascending in z^2"""
    b = a**2 * (1 - E**2)
    return [Q, -(Q + b + L**2), b]


def dphi(a, E, L, r, z2):
    return a / (r**2 - 2 * r + a**2) * (E * (r**2 + a**2) - a * L) + L / (1 - z2) - a * E


def dt(a, E, L, r, z2):
    return (r**2 + a**2) / (r**2 - 2 * r + a**2) * (E * (r**2 + a**2) - a * L) - a**2 * E * (1 - z2) + a * L


def metric(a, r, cth2, sth2):
    sg = r**2 + a**2 * cth2
    d = r**2 - 2 * r + a**2
    g = [[0] * 4 for _ in range(4)]
    g[0][0] = -(1 - 2 * r / sg)
    g[1][1] = sg / d
    g[2][2] = sg
    g[3][3] = sth2 * ((r**2 + a**2) ** 2 - d * a**2 * sth2) / sg
    g[0][3] = g[3][0] = -2 * a * r * sth2 / sg
    return g


# ------------------------------------------------------------------ constants of motion
def constants(a, p, e, x, dps=DPS):
    """(E, L, Q) of the orbit with turning points p/(1-e), p/(1+e), cos^2 theta_max = 1-x^2; a >= 0 (None if none)"""
    with mp.workdps(dps):
        a, p, e, x = mpf(a), mpf(p), mpf(e), mpf(x)
        z2 = 1 - x**2

        def co(r):
            # R(r) = f E^2 - 2 g E L - h L^2 - d with Q = z2 (a^2(1-E^2) + L^2/(1-z2))
            D = r * r - 2 * r + a * a
            f = (r * r + a * a) ** 2 - D * a * a * (1 - z2)
            g = a * ((r * r + a * a) - D)
            h = D * (1 + z2 / (1 - z2)) - a * a if x != 0 else None
            d = D * (r * r + z2 * a * a)
            return f, g, h, d

        def dco(r):
            D = r * r - 2 * r + a * a
            D1 = 2 * r - 2
            return (4 * r * (r * r + a * a) - D1 * a * a * (1 - z2), a * (2 * r - D1),
                    D1 * (1 + z2 / (1 - z2)) if x != 0 else None, D1 * (r * r + z2 * a * a) + D * 2 * r)
        if x == 0:
            # R = y (r^2+a^2)^2 - D (r^2 + a^2 y + Q)
            def lin(r):
                D = r * r - 2 * r + a * a
                return (r * r + a * a) ** 2 - D * a * a, -D, D * r * r

            def dlin(r):
                D = r * r - 2 * r + a * a
                D1 = 2 * r - 2
                return 4 * r * (r * r + a * a) - D1 * a * a, -D1, D1 * r * r + 2 * r * D
            if e == 1:
                A, B, C = lin(p / 2)
                return mpf(1), mpf(0), (C - A) / B
            A1, B1, C1 = lin(p / (1 - e))
            A2, B2, C2 = lin(p / (1 + e)) if e != 0 else dlin(p)
            det = A1 * B2 - A2 * B1
            y, Qc = (C1 * B2 - C2 * B1) / det, (A1 * C2 - A2 * C1) / det
            if y <= 0:
                return None
            return mp.sqrt(y), mpf(0), Qc
        s = mp.sign(x)

        def carter(E, L):
            return z2 * (a * a * (1 - E * E) + L * L / (1 - z2))
        if e == 1:
            f, g, h, d = co(p / 2)
            # h L^2 + 2 g L + d - f = 0
            disc = g * g - h * (d - f)
            if disc < 0:
                return None
            for sg in (1, -1):
                if h != 0:
                    L = (-g + sg * mp.sqrt(disc)) / h
                    if mp.sign(L) == s:
                        return mpf(1), L, carter(mpf(1), L)
            return None
        f1, g1, h1, d1 = co(p / (1 - e))
        f2, g2, h2, d2 = co(p / (1 + e)) if e != 0 else dco(p)
        ka, rh, si = d1 * h2 - h1 * d2, f1 * h2 - h1 * f2, g1 * h2 - h1 * g2
        if a == 0:
            y = ka / rh
            if y <= 0:
                return None
            l2 = (f1 * y - d1) / h1
            if l2 <= 0:
                return None
            L = s * mp.sqrt(l2)
            return mp.sqrt(y), L, carter(mp.sqrt(y), L)
        ep, et = d1 * g2 - g1 * d2, f1 * g2 - g1 * f2
        A, B, C = rh**2 + 4 * et * si, ka * rh + 2 * ep * si, ka**2
        disc = B * B - A * C
        if disc < 0:
            return None
        best = None
        for sg in (1, -1):
            y = (B + sg * mp.sqrt(disc)) / A
            if y <= 0 or y > 1:
                continue
            E = mp.sqrt(y)
            L = (rh * y - ka) / (2 * si * E)
            if mp.sign(L) == s:
                best = (E, L, carter(E, L))
        return best


def radial_roots(a, p, e, x, c=None):
    c = c or constants(a, p, e, x)
    E, L, Q = c
    with mp.workdps(DPS):
        p, e = mpf(p), mpf(e)
        r1, r2 = p / (1 - e), p / (1 + e)
        s = 2 / (1 - E * E) - r1 - r2
        pr = mpf(a) ** 2 * Q / ((1 - E * E) * r1 * r2)
        disc = s * s - 4 * pr
        if disc < 0:
            return None
        r3 = (s + mp.sqrt(disc)) / 2
        return r1, r2, r3, pr / r3 if r3 != 0 else mpf(0)


def polar_roots(a, E, L, Q, x):
    """(z-, a^2(1-E^2) z+)"""
    zm = 1 - mpf(x) ** 2
    b = mpf(a) ** 2 * (1 - E * E)
    return zm, Q + b + L * L - b * zm


def stable(a, p, e, x):
    """independent stability predicate for e<1 (double root test by continuation is in separatrix)"""
    if not abs(a) < 1:
        return False
    c = constants(a, p, e, x)
    if c is None or c[0] >= 1 and e < 1:
        return False
    rr = radial_roots(a, p, e, x, c)
    return rr is not None and rr[1] > rr[2] > (1 + (1 - float(a)**2) ** .5) * (1 - 1e-9)


_sep = {}


def _gap(a, p, e, x):
    """positive exactly when p is outside the separatrix (near it)"""
    if e == 1:
        c = constants(a, p, e, x, 30)
        if c is None:
            return -1.0
        # r -> infinity is the other turning point: cubic 2 r^3 + ... ; factor (r - r2)
        E, L, Q = c
        k = R_coefficients(mpf(a), E, L, Q)
        r2 = mpf(p) / 2
        # 2 r^3 + k2 r^2 + k1 r + k0 = 2 (r-r2)(r^2 + u r + v)
        u = k[2] / 2 + r2
        v = k[1] / 2 + u * r2
        disc = u * u - 4 * v
        if disc < 0:
            return 1.0
        return float(r2 - (-u + mp.sqrt(disc)) / 2)
    c = constants(a, p, e, x, 30)
    if c is None or c[0] >= 1:
        return -1.0
    rr = radial_roots(a, p, e, x, c)
    if rr is None:
        return 1.0
    return float(rr[1] - rr[2])


def separatrix(a, e, x, tol=1e-13):
    """largest p below which the bound orbit with these turning points stops being stable (a>=0)"""
    key = (a, e, x)
    if key in _sep:
        return _sep[key]
    if a == 0:
        return 6 + 2 * e
    hi = 12.6
    step = 0.2
    lo = hi
    while True:
        lo = hi - step
        if lo <= 1 + e:
            lo = 1 + e
        if _gap(a, lo, e, x) < 0 or lo == 1 + e:
            break
        hi = lo
    while hi - lo > tol * hi:
        mid = (lo + hi) / 2
        if mid in (lo, hi):
            break
        if _gap(a, mid, e, x) > 0:
            hi = mid
        else:
            lo = mid
    _sep[key] = hi
    return hi


# ------------------------------------------------------------------ frequencies by quadrature
def mino_frequencies(a, p, e, x, c=None, n=None):
    """(Y_r, Y_theta, Y_phi, Gamma) by the trapezoidal rule over the quasi-Keplerian angles (spectrally accurate)"""
    c = c or constants(a, p, e, x)
    E, L, Q = [float(v) for v in c]
    rr = [float(v) for v in radial_roots(a, p, e, x, c)]
    zm, bzp = [float(v) for v in polar_roots(a, *c, x)]
    b = a * a * (1 - E * E)
    omE2 = float(1 - c[0] ** 2)
    prev = None
    n = n or 256
    while True:
        psi = (np.arange(n) + 0.5) * math.pi / n
        r = p / (1 + e * np.cos(psi))
        w = r * math.sqrt(1 - e * e) / (p * np.sqrt(omE2 * (r - rr[2]) * (r - rr[3])))
        Lr = 2 * math.pi * w.mean()
        chi = psi
        z2 = zm * np.cos(chi) ** 2
        wz = 1 / np.sqrt(bzp - b * z2)
        Lz = 2 * math.pi * wz.mean()
        D = r * r - 2 * r + a * a
        pr = a / D * (E * (r * r + a * a) - a * L) - a * E
        tr = (r * r + a * a) / D * (E * (r * r + a * a) - a * L) + a * L
        pz = L / (1 - z2)
        tz = -a * a * E * (1 - z2)
        Yp = (pr * w).sum() / w.sum() + (pz * wz).sum() / wz.sum()
        G = (tr * w).sum() / w.sum() + (tz * wz).sum() / wz.sum()
        out = (2 * math.pi / Lr, 2 * math.pi / Lz, Yp, G)
        if prev is not None and all(abs(u - v) <= 1e-12 * abs(u) for u, v in zip(prev, out)) or n > 60000:
            return out
        prev = out
        n *= 2


# ------------------------------------------------------------------ samplers
def sample_stable(rng, e_range=(0.0, 0.9), a_range=(0.02, 0.98), xmin=0.05, far=8.0, equatorial=True):
    """a random stable bound orbit (a,p,e,x), p from just outside the separatrix outwards"""
    a = rng.uniform(*a_range)
    e = rng.uniform(*e_range)
    x = rng.uniform(xmin, 1) * rng.choice([1, -1])
    if equatorial and rng.random() < 0.12:
        x = float(rng.choice([1, -1]))
    if rng.random() < 0.1:
        x = rng.choice([1, -1]) * rng.uniform(0.01, 0.05)
    ps = separatrix(a, e, x, 1e-9)
    p = ps + rng.choice([rng.uniform(0.02, 0.5), rng.uniform(0.1, far), rng.uniform(0.5, far)])
    return a, p, e, x


def sample_plunge(rng, kind, tries=20000, sgn=None):
    """(a,E,L,Q) with 0<a<1, 0<E<1, L != 0.  kind 'complex': two real radial roots; 'low': four, the plunging region below the
    others (the constants of a stable orbit); 'high': four, three of them inside the inner horizon;
    sgn: wanted sign of L"""
    for _ in range(tries):
        a = rng.uniform(0.05, 0.98)
        E = rng.uniform(0.3, 0.99)
        L = rng.uniform(-4, 4)
        Q = rng.uniform(0.02, 14) if rng.random() < 0.9 else rng.uniform(0.0005, 0.02)
        if kind == "complex" and rng.random() < 0.3:
            a = rng.choice([rng.uniform(0.005, 0.05), rng.uniform(0.98, 0.999)])
        if kind == "low":
            x = (rng.uniform(0.05, 0.999) if rng.random() < 0.88 else 1.0) * rng.choice([1, -1])
            e = rng.uniform(0, 0.9)
            c = constants(a, 1.02 * (7 + 2 * e) + rng.uniform(-3, 9), e, x, 20)
            if c is None or c[0] >= 1:
                continue
            E, L, Q = (float(v) for v in c)
        elif kind == "high":
            a = rng.uniform(0.5, 0.995)
            Q = 10 ** rng.uniform(-4, -1.3)
            L = a * E * rng.uniform(0.3, 1.8)
            if sgn == -1 or rng.random() < 0.3:
                a, E, L, Q = rng.uniform(0.9, 0.999), rng.uniform(0.05, 0.3), -rng.uniform(0.02, 0.25), 10 ** rng.uniform(-3.7, -2.5)
        elif kind == "complex" and rng.random() < 0.08:
            Q = 0.0
        if abs(L) < (0.05 if kind != "high" else 0.01) or sgn is not None and L * sgn < 0:
            continue
        roots = np.roots(R_coefficients(a, E, L, Q)[::-1])
        isre = np.abs(roots.imag) < 1e-9
        re = np.sort(roots[isre].real)
        rm, rp = 1 - math.sqrt(1 - a * a), 1 + math.sqrt(1 - a * a)
        if kind == "complex" and len(re) == 2:
            if re[0] < rm - 1e-4 and re[1] > rp + 1e-3 and abs(roots[~isre].imag).min() > 0.02 and (re[0] > 1e-6 or Q == 0 and abs(re[0]) < 1e-12):
                return a, E, L, Q
        if kind in ("low", "high") and len(re) == 4 and np.diff(re).min() > 2e-3 and np.abs(re - rm).min() > 1e-3 and \
                np.abs(re - rp).min() > 1e-3 and (re[1] > rm) == (kind == "low"):
            return a, E, L, Q
    return None
