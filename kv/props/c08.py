"""C08 stable trajectories satisfy the geodesic equations"""
from .base import *
from .. import geo
from ..diff import derivative

A, P, E_, X = var("a"), var("p"), var("e"), var("x")
EN, L, PSEP = var("E"), var("L"), var("psep")
R1, R2, R3, R4 = (var(f"r{i}") for i in (1, 2, 3, 4))
LAM = var("lam")
QT, QR, QTH, QPH = var("qt0"), var("qr0"), var("qth0"), var("qphi0")


def D(x):
    return T.Sym(derivative(N(x), LAM.n))


def carter(a, x, E, L):
    """Carter constant that puts the polar turning point at cos^2 theta = 1-x^2"""
    return (1 - x**2) * (a**2 * (1 - E**2) + L**2 / x**2)


def spin_L(a, e, sx, X=X):
    """angular momentum: free for a != 0; its Schwarzschild value (contract C01) for a = 0"""
    v = L if a else X * P / sqrt(P - 3 - (E_**2 if e else 0))
    return v if sx > 0 else -v


def orbit_stubs(a, x, E, L, roots, p=None):
    Q = carter(a, x, E, L)
    c = (E, L, Q)
    return {**ELL, "constants_of_motion": lambda *k, **kw: c, "energy": lambda *k, **kw: E, "angular_momentum": lambda *k, **kw: L,
            "carter_constant": lambda *k, **kw: Q, "stable_radial_roots": lambda *k, **kw: roots,
            "separatrix": lambda *k, **kw: PSEP}


def potentials(K, a, E, L, Q, roots, t, r, th, ph, nm=""):
    """the four geodesic equations; the radial potential through its roots (C02/C18)"""
    z2 = cos2(th)
    dr = D(r)
    K.eq(nm + "(dr/dlambda)^2 = R(r)", dr * dr, (1 - E**2) * (roots[0] - r) * (r - roots[1]) * (r - roots[2]) * (r - roots[3]))
    dz = D(fn("cos", th))
    k = spec.Z_coefficients(a, E, L, Q)
    K.eq(nm + "(sin theta dtheta/dlambda)^2 = Z", dz * dz, k[0] + k[1] * z2 + k[2] * z2 * z2)
    K.eq(nm + "dphi/dlambda", D(ph), spec.dphi(a, E, L, r, z2))
    K.eq(nm + "dt/dlambda", D(t), spec.dt(a, E, L, r, z2))


def cos2(th):
    c = fn("cos", th)
    return c * c


def body(a, e, sx, eq=False, neg=False):
    roots = (R1, R1 if e == 0 else R2, R3, R4)

    def b(K):
        av = S(0) if a == 0 else A
        xv = S(sx) if eq else X if sx > 0 else -X
        ev = S(0) if e == 0 else E_
        Lv = spin_L(a, e, sx, S(1) if eq else X)
        t, r, th, ph = K.stable.stable_trajectory(-av if neg else av, P, ev, -xv if neg else xv, (QT, QR, QTH, QPH))
        t, r, th, ph = t(LAM), r(LAM), th(LAM), ph(LAM)
        potentials(K, av, EN, Lv, carter(av, xv, EN, Lv), roots, t, r, th, ph)
        c = fn("cos", th)
        K.true("cos^2 theta <= 1-x^2", le(c * c, 1 - xv * xv))
        # r - r2 and r1 - r as products of squares over a positive denominator
        if e:
            K.true("r >= r2", le(roots[1], r))
            K.true("r <= r1", le(r, roots[0]))
        else:
            K.eq("r constant", r, R1)
    return b


class C08(Prop):
    id = "C08"
    explanation = ("stable_trajectory with the frequencies, radial_solutions and polar_solutions it calls is executed on a symbolic Mino "
                   "time, phases and orbit (constants and radial roots free, related by the contracts of C01/C02); the derivatives of "
                   "t, r, theta, phi with respect to Mino time are proved equal to the Kerr potentials for every time.")
    assumptions = ["scipy ellipj, ellipk, ellipe, Carlson integrals compute their defining functions (C19 proves the package's use)",
                   "the radial roots are those of the radial potential (C02) and the Carter constant gives z-=1-x^2 (C01)",
                   "r2 >= r3 and r_+ outside the range of r (stability, C05)"]
    monitor_seconds = 45

    def vcs(self, tier):
        pre = [lt(0, A), lt(A, 1), lt(0, E_), lt(E_, 1), lt(0, X), lt(X, 1), lt(PSEP, P), lt(0, EN), lt(EN, 1), lt(0, L), lt(0, P),
               lt(R2, R1), lt(R3, R2), lt(R4, R3), le(0, R4), lt(1 + sqrt(1 - A**2), R2)]

        def smp(a, e, sx, eq=False):
            def f(rng):
                av = 0.0 if a == 0 else rng.uniform(.1, .95)
                ev = 0.0 if e == 0 else rng.uniform(.05, .8)
                x = 1.0 if eq else rng.uniform(.1, .95)
                ps = spec.separatrix(av, ev, sx * x, 1e-9)
                p = ps + rng.uniform(.1, 8)
                c = spec.constants(av, p, ev, sx * x)
                rr = [float(v) for v in spec.radial_roots(av, p, ev, sx * x, c)]
                if rr[3] <= 0:
                    rr[3] = 0.0
                return dict(a=av or .5, p=p, e=ev or .3, x=.5 if eq else x, psep=ps, E=float(c[0]), L=abs(float(c[1])), r1=rr[0],
                            r2=rr[1] if ev else (rr[0] + rr[2]) / 2, r3=rr[2], r4=rr[3], lam=mino_time(rng, 4),
                            qt0=rng.uniform(-5, 5), qr0=rng.uniform(-7, 7), qth0=rng.uniform(-7, 7), qphi0=rng.uniform(-5, 5))
            return f
        out = []
        for a, e, sx, eq, neg in [(a, e, sx, eq, False) for a in (1, 0) for e in (1, 0) for sx in (1, -1) for eq in (False, True)] + \
                [(1, 1, 1, False, True), (1, 1, -1, False, True), (1, 0, 1, False, True), (1, 1, -1, True, True)]:
            def conc(s, a=a, e=e, sx=sx, eq=eq, neg=neg):
                g = -1 if neg else 1
                return dict(a=s["a"] * g if a else 0.0, p=s["p"], e=s["e"] if e else 0.0, x=(1.0 if eq else s["x"]) * sx * g, lam=s["lam"],
                            phases=[s["qt0"], s["qr0"], s["qth0"], s["qphi0"]])
            av, Xv = (A if a else S(0)), (S(1) if eq else X)
            out.append(VC(f"stable_trajectory a={'a' if a else 0} e={'e' if e else 0} x{'=' if eq else '>' if sx > 0 else '<'}"
                          f"{sx if eq else 0}{' negative spin' if neg else ''}",
                          ["stable_trajectory", "radial_solutions", "polar_solutions", "mino_frequencies", "r_frequency",
                           "theta_frequency", "phi_frequency", "gamma", "stable_polar_roots", "_standardize_params"],
                          body(a, e, sx, eq, neg), pre + ([] if a else [lt(6 + 2 * (E_ if e else S(0)), P)]), smp(a, e, sx, eq),
                          stubs=orbit_stubs(av, Xv if sx > 0 else -Xv, EN, spin_L(a, e, sx, Xv), (R1, R2 if e else R1, R3, R4)),
                          concretize=conc, min_obligations=5, nsamples=4))
        return out

    def cases(self, rng, tier):
        for i in range(260 if tier == "quick" else 4000):
            a, p, e, x = stable_orbit(rng, i, 0.95, negative=i % 6 == 5)
            yield dict(a=a, p=p, e=e, x=x, phases=phases(rng, i), via=i % 4, lam=mino_time(rng))

    def check(self, inp):
        a, p, e, x = (float(inp[k]) for k in "apex")
        sa, sx = std(a, x)
        c = spec.constants(sa, p, e, sx)
        rr = c and spec.radial_roots(sa, p, e, sx, c)
        if rr is None or rr[1] - rr[2] < 1e-3:
            return []
        q = [float(v) for v in inp.get("phases") or (0, 0, 0, 0)]
        M = geo.stable_motion(sa, p, e, sx, q[1], q[2], c)
        kgm = kg()
        via = inp.get("via", 0)
        if via == 1:
            f = kgm["stable"].StableOrbit(a, p, e, x, tuple(q)).trajectory()
        elif via == 2:
            f = kgm["stable"].StableOrbit(a, p, e, x).trajectory(tuple(q))
        elif via == 3:
            f = kgm["stable"].StableOrbit(a, p, e, x, initial_phases=(1, 2, 3, 4)).trajectory(initial_phases=tuple(q))
        else:
            f = kgm["stable"].stable_trajectory(a, p, e, x, tuple(q))
        return motion_check(f, M, q, times(M, inp.get("lam")), p / (1 + e), p / (1 - e), abs(sx)) or \
            vectorized([("trajectory", f, 1e-9, 1e-8)], M, sa, inp, inp.get("via") == 1)


def phases(rng, i):
    k = i % 5
    if k == 0:
        return [0, 0, 0, 0]
    if k == 1:
        return [rng.uniform(-9, 9), rng.choice([0, math.pi, -math.pi, 2 * math.pi]), rng.choice([0, math.pi / 2, -math.pi / 2, math.pi]), 0]
    if k == 2:
        u = rng.uniform(-9, 9)
        i, big = rng.randrange(4), rng.choice([20, 60])
        return rng.choice([[u] * 4, [u if j == i else 0 for j in range(4)], [rng.uniform(-big, big) for _ in range(4)], [rng.randint(-7, 7) for _ in range(4)],
                           [u * 1e-5 for j in range(4)], [u, -u, u, -u]])
    return [rng.uniform(-9, 9) for _ in range(4)]


def times(M, extra=None):
    Y = 2 * math.pi / M.Yr
    Yt = 2 * math.pi / M.Yth
    out = [0.0, 0.07 * Y, 0.31 * Y, 0.5 * Y, 0.62 * Y, 0.9 * Y, 1.4 * Y, 3.7 * Y, -0.2 * Y, -0.6 * Y, -1.3 * Y, -2.9 * Y, 23.3 * Y, -17.6 * Y,
           0.2 * Yt, 0.8 * Yt, -0.3 * Yt, -1.6 * Yt, 2.55 * Yt, 0.25 * Yt]
    if extra is not None:
        out.append(float(extra))
    return np.array(out)


def motion_check(f, M, q, lam, rlo, rhi, ax, tol=3e-8):
    t, r, th, ph = f
    out = []
    R, TH = M.r_theta(lam)
    tt, pp = M.t_phi(lam)
    got = [np.asarray(g(lam), float) for g in (t, r, th, ph)]
    z2 = np.cos(got[2]) ** 2
    for l, rv, zv in zip(lam, got[1], z2):
        if not rlo * (1 - 1e-9) <= rv <= rhi * (1 + 1e-9):
            out.append(f"r({l})={rv} outside [{rlo},{rhi}]")
        if not zv <= 1 - ax * ax + 1e-9:
            out.append(f"|cos theta({l})|={zv**.5} above sqrt(1-x^2)")
    for n, g, w, sc in (("r", got[1], R, 0), ("theta", got[2], TH, 1), ("t", got[0], q[0] + tt, 1), ("phi", got[3], q[3] + pp, 1)):
        err = np.abs(g - w) / (sc + np.abs(w))
        if n == "theta":
            # near an equatorial orbit arccos amplifies rounding
            err = np.minimum(err, np.abs(np.cos(g) - np.cos(w)))
        k = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
        if not err[k] < tol:
            out.append(f"{n}({lam[k]!r}) = {g[k]!r}, geodesic equations give {w[k]!r}")
    return out


PROP = C08()
