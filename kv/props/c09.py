"""C09 plunging trajectories with four real roots"""
from .base import *
from .. import geo
from .c08 import potentials, phases, A, EN, L, R1, R2, R3, R4, LAM, QT, QR, QTH, QPH

ZM = var("zm")
BETA = A**2 * (1 - EN**2)
ZP = 1 + L**2 / (BETA * (1 - ZM))
QQ = BETA * ZM * ZP


def polar_handler(coefs):
    """contract of numpy's Polynomial.roots for the polar polynomial: both roots, in increasing order"""
    if len(coefs) != 3:
        raise T.Unsupported("roots of an unexpected polynomial")
    ex = T.CTX[0]
    for n, z in (("z-", ZM), ("z+", ZP)):
        ex.oblige(f"{n} is a root of the polar polynomial the code builds", N(coefs[0] + coefs[1] * z + coefs[2] * z * z))
    return T.SymSeq([ZM, ZP])


def body(sx):
    def b(K):
        Lv = L if sx > 0 else -L
        t, r, th, ph = K.plunge.plunging_trajectory(A, EN, Lv, QQ, (QT, QR, QTH, QPH))
        potentials(K, A, EN, Lv, QQ, (R1, R2, R3, R4), t(LAM), r(LAM), th(LAM), ph(LAM))
        c = fn("cos", th(LAM))
        K.true("cos^2 theta <= z-", le(c * c, ZM))
        K.true("r >= r2", le(R2, r(LAM)))
        K.true("r <= r1", le(r(LAM), R1))
    return b


PLUNGE_FN = ["plunging_trajectory", "_real_plunge_trajectory", "radial_solutions", "polar_solutions", "_mino_frequencies_from_constants",
             "_r_frequency_from_constants", "_theta_frequency_from_constants", "_phi_frequency_from_constants", "_gamma_from_constants"]


def sample(rng, kind, sgn=None):
    """kind 'low', 'high' or 'complex' -> (constants, radial roots in the documented order, complex roots, reference motion)"""
    q = spec.sample_plunge(rng, kind, sgn=sgn)
    if q is None:
        return None
    re, im = geo.roots4(*q)
    order = {"low": lambda: (re[1], re[0], re[3], re[2]), "high": lambda: (re[3], re[2], re[1], re[0]),
             "complex": lambda: (re[0], re[1])}[kind]()
    reg = geo.region(*q)
    return (q, order, im, geo.Motion(*q, *reg)) if reg else None


class C09(Prop):
    id = "C09"
    explanation = ("plunging_trajectory in the case of four real roots is executed on symbolic constants, phases and Mino time (radial roots "
                   "in both documented orders, polar roots from the contract of Polynomial.roots); the derivatives of t, r, theta, phi are "
                   "proved equal to the Kerr potentials for every time.")
    assumptions = ["plunging_radial_roots returns the roots of the radial potential in the documented order (C18)",
                   "numpy Polynomial.roots returns all roots, increasing when real",
                   "the Legendre integral of the third kind with characteristic above one is its Cauchy principal value (monitored)"]
    monitor_seconds = 50

    def vcs(self, tier):
        pre = [lt(0, A), lt(A, 1), lt(0, EN), lt(EN, 1), lt(0, L), lt(0, ZM), lt(ZM, 1)]
        out = []
        for first in ("high", "low"):
            order = [lt(R2, R1), lt(R3, R2), lt(R4, R3)] if first == "high" else [lt(R2, R1), lt(R1, R4), lt(R4, R3)]
            for sx in (1, -1):
                def smp(rng, first=first, sx=sx):
                    for _ in range(60):
                        q = sample(rng, first, sx)
                        if q is None:
                            return None
                        (a, E, Lz, Q), o, im, M = q
                        if (Lz > 0) == (sx > 0):
                            return dict(a=a, E=E, L=abs(Lz), zm=M.zm, r1=o[0], r2=o[1], r3=o[2], r4=o[3], lam=mino_time(rng, 2),
                                        qt0=rng.uniform(-5, 5), qr0=rng.uniform(-7, 7), qth0=rng.uniform(-7, 7), qphi0=rng.uniform(-5, 5))

                def conc(s, sx=sx):
                    b = s["a"] ** 2 * (1 - s["E"] ** 2)
                    return dict(a=s["a"], E=s["E"], L=s["L"] * sx, Q=b * s["zm"] * (1 + s["L"] ** 2 / (b * (1 - s["zm"]))), lam=s["lam"],
                                phases=[s["qt0"], s["qr0"], s["qth0"], s["qphi0"]])
                out.append(VC(f"plunge, four real roots, {'r3,r4 below' if first == 'high' else 'r3,r4 above'}, L{'>' if sx > 0 else '<'}0",
                              PLUNGE_FN, body(sx), pre + order, smp, stubs={**ELL, "plunging_radial_roots": lambda *k: (R1, R2, R3, R4)},
                              poly_roots=polar_handler, concretize=conc, nsamples=4, min_obligations=6))
        return out

    def cases(self, rng, tier):
        for i in range(150 if tier == "quick" else 2500):
            q = sample(rng, ("low", "low", "high")[i % 3])
            if q is None:
                continue
            (a, E, Lz, Q) = q[0]
            yield dict(a=a, E=E, L=Lz, Q=Q, phases=phases(rng, i), via=i % 4, lam=mino_time(rng))

    def check(self, inp):
        a, E, Lz, Q = (float(inp[k]) for k in "aELQ")
        reg = geo.region(a, E, Lz, Q)
        if reg is None:
            return []
        q = [float(v) for v in inp.get("phases") or (0, 0, 0, 0)]
        f = plunge_functions(a, E, Lz, Q, q, inp.get("via", 0))
        M = geo.Motion(a, E, Lz, Q, *reg, qr0=q[1], qth0=q[2])
        return plunge_motion_check(f, M, q, inp.get("lam")) or vectorized([("trajectory", f, 1e-9, 1e-8)], M, a, inp)


def plunge_functions(a, E, Lz, Q, q, via):
    m = kg()["plunge"]
    if via == 1:
        return m.PlungingOrbit(a, E, Lz, Q, tuple(q)).trajectory()
    if via == 2:
        return m.PlungingOrbit(a, E, Lz, Q).trajectory(tuple(q))
    if via == 3:
        return m.PlungingOrbit(a, E, Lz, Q, initial_phases=(1, 2, 3, 4)).trajectory(initial_phases=tuple(q))
    return m.plunging_trajectory(a, E, Lz, Q, tuple(q))


def plunge_motion_check(f, M, q, extra=None, tol=2e-7):
    t, r, th, ph = f
    out = []
    Y, Yt = 2 * math.pi / M.Yr, 2 * math.pi / M.Yth
    lam = np.concatenate([np.linspace(-1.3 * Y, 1.9 * Y, 161), [7.37 * Y, -8.21 * Y, 0.0, .3 * Yt, -.7 * Yt, 1.6 * Yt, -2.2 * Yt],
                          [] if extra is None else [float(extra)]])
    R, TH = M.r_theta(lam)
    gr, gth = np.asarray(r(lam), float), np.asarray(th(lam), float)
    # a small relative error of the roots shifts the phase
    err = np.abs(gr - R) / (1 + abs(R))
    k = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
    if not err[k] < tol:
        out.append(f"r({lam[k]!r}) = {gr[k]!r}, geodesic equations give {R[k]!r}")
    if not (gr.min() >= M.ra - 1e-7 * (1 + abs(M.ra)) and gr.max() <= M.rb + 1e-7 * (1 + M.rb)):
        out.append(f"r leaves [{M.ra},{M.rb}]: {gr.min()} {gr.max()}")
    err = np.minimum(np.abs(gth - TH), np.abs(np.cos(gth) - np.cos(TH)))
    k = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
    if not err[k] < tol:
        out.append(f"theta({lam[k]!r}) = {gth[k]!r}, geodesic equations give {TH[k]!r}")
    # t, phi over stretches that do not touch a horizon
    rm, rp = 1 - math.sqrt(1 - M.a**2), 1 + math.sqrt(1 - M.a**2)
    d = 0.04 * min(1, rp - rm)
    ok = (np.abs(R - rm) > d) & (np.abs(R - rp) > d)
    side = (R > rm).astype(int) + (R > rp)
    i = 0
    n = 161
    while i < n:
        if not ok[i]:
            i += 1
            continue
        j = i
        while j + 1 < n and ok[j + 1] and side[j + 1] == side[i]:
            j += 1
        if j > i:
            idx = [i, (i + j) // 2, j] if j > i + 1 else [i, j]
            tv, pv = np.asarray(t(lam[idx]), float), np.asarray(ph(lam[idx]), float)
            for u, w in zip(range(len(idx) - 1), range(1, len(idx))):
                dt, dp = M.advance(lam[idx[u]], lam[idx[w]], pieces=6 + 2 * (idx[w] - idx[u]))
                for nm, g, want in (("t", tv[w] - tv[u], dt), ("phi", pv[w] - pv[u], dp)):
                    if not abs(g - want) < 3e-7 * (1 + abs(want) + abs(tv[w] if nm == "t" else pv[w])):
                        out.append(f"{nm}({lam[idx[w]]!r})-{nm}({lam[idx[u]]!r}) = {g!r}, geodesic equations give {want!r}")
        i = j + 1
    for nm, g, w in (("t", t, q[0]), ("phi", ph, q[3])):
        if not abs(float(g(0)) - w) < 1e-9 * (1 + abs(w)):
            out.append(f"{nm}(0) = {float(g(0))!r}, initial phase is {w!r}")
    return out


PROP = C09()
