"""C03 orbital parameters and constants of motion are inverse maps"""
from .base import *
from .orbits import *
from . import orbits

MASS, MU = var("M"), var("mu")


def proportional(nm, got, want):
    ex = T.CTX[0]
    k = max(i for i, w in enumerate(want) if N(w) is not T.ZERO)
    if len(got) != len(want):
        raise T.Unsupported("roots of an unexpected polynomial")
    for i, (g, w) in enumerate(zip(got, want)):
        if i != k:
            ex.oblige(f"{nm}: coefficient {i}", T.sub(N(g * want[k]), N(w * got[k])))
    ex.oblige_true(f"{nm}: leading coefficient is not zero", T.bnot(T.rel(N(got[k]), "==")))


def roots(kd, zm):
    """contract of numpy's Polynomial.roots: all roots, real ones in increasing order; the code must hand it the radial or polar polynomial of
    the orbit's constants"""
    a, E, Lc, Q = kd.consts

    def f(coefs):
        coefs = [S(c) for c in coefs]
        if len(coefs) == 5:
            proportional("radial polynomial", coefs, [S(c) for c in spec.R_coefficients(a, E, Lc, Q)])
            return T.SymSeq([kd.roots[3], kd.roots[2], kd.roots[1], kd.roots[0]])
        if len(coefs) == 3:
            want = [S(c) for c in spec.Z_coefficients(a, E, Lc, Q)]
            proportional("polar polynomial", coefs, want)
            if want[2].n is T.ZERO:
                # numpy drops vanishing leading coefficients
                return T.SymSeq([zm])
            zp = 1 + Lc**2 / (a**2 * (1 - E**2) * (1 - zm))
            for n, z in (("z-", zm), ("z+", zp)):
                T.CTX[0].oblige(f"{n} is a root", N(want[0] + want[1] * z + want[2] * z * z))
            return T.SymSeq([zm, zp])
        raise T.Unsupported("roots of an unexpected polynomial")
    return f


def body(kd):
    a, p, e, x = kd.args

    def b(K):
        E, Lc, Q = kd.consts[1:]
        for nm, v in (("", K.constants.apex_from_constants(a, E, Lc, Q)), (" by keyword", K.constants.apex_from_constants(a=a, E=E, L=Lc, Q=Q))):
            for n, g, w in zip("apex", v, (a, p, e, x)):
                K.eq(f"{n} recovered{nm}", g, w)
        with quiet(K):
            cls = K.stable.StableOrbit
            for nm, kw in (("", {}), (" with phases", dict(initial_phases=PH)), (" with masses", dict(M=MASS, mu=MU)),
                           (" with phases and masses", dict(initial_phases=PH, M=MASS, mu=MU))):
                o, r = cls.from_constants(a, E, Lc, Q, **kw), cls(a, p, e, x, **kw)
                same(K, "from_constants" + nm, o, r)
            same(K, "from_constants, positional", cls.from_constants(a, E, Lc, Q, PH, MASS, MU), cls(a, p, e, x, PH, MASS, MU))
    return b


ATTR = ("a", "p", "e", "x", "E", "L", "Q", "upsilon_r", "upsilon_theta", "upsilon_phi", "gamma", "omega_r", "omega_theta", "omega_phi")


def same(K, nm, o, r):
    K.true(nm + " is a StableOrbit", T.TRUE if type(o) is type(r) else T.FALSE)
    for n in ATTR:
        K.eq(f"{nm}: {n}", getattr(o, n), getattr(r, n))
    for n in ("M", "mu"):
        u, v = getattr(o, n), getattr(r, n)
        if u is None or v is None:
            K.true(f"{nm}: {n}", T.TRUE if u is v else T.FALSE)
        else:
            K.eq(f"{nm}: {n}", u, v)
    for n, u, v in zip(("qt", "qr", "qtheta", "qphi"), o.initial_phases, r.initial_phases):
        K.eq(f"{nm}: phase {n}", u, v)
    for n, u, v in zip(("t", "r", "theta", "phi"), o.initial_position, r.initial_position):
        K.eq(f"{nm}: initial_position {n}", u, v)
    for n, u, v in zip(("t", "r", "theta", "phi"), o.trajectory(), r.trajectory()):
        K.eq(f"{nm}: trajectory {n}", u(LAM), v(LAM))


def linked(kd, eq):
    """the outer roots are p/(1-e), p/(1+e) (C02)"""
    a, p, e, x = kd.args
    kd.roots = (P / (1 - E_), P / (1 + E_), R3, R4)
    kd.stubs = dict(kd.stubs, stable_radial_roots=lambda *k, **kw: kd.roots)
    kd.pre = [c for c in kd.pre if c is not lt(R2, R1) and c is not lt(R3, R2) and c is not lt(1 + sqrt(1 - A**2), R2)] + [lt(R3, kd.roots[1])]
    kd.poly = roots(kd, S(0) if eq else 1 - X**2)
    return kd


class C03(Prop):
    id = "C03"
    explanation = ("apex_from_constants and StableOrbit.from_constants are executed on a symbolic orbit: the polynomials handed to numpy's root "
                   "finder are proved to be the orbit's radial and polar polynomials, whose ordered roots (contracts C01, C02) then give back "
                   "exactly (a,p,e,x); every attribute, phase, mass and the trajectory of the orbit built from constants equals the one built from parameters.")
    assumptions = ["numpy Polynomial.roots returns all roots in increasing order", "roots and constants through their contracts (C01, C02)"]
    monitor_seconds = 40

    def vcs(self, tier):
        out = []
        for a, sx, eq in [(1, 1, False), (1, -1, False), (0, 1, False), (0, -1, False), (1, 1, True), (1, -1, True), (0, 1, True)]:
            kd = linked(stable_kind(a, 1, sx, eq), eq)

            def smp(rng, kd=kd):
                s = kd.sampler(rng)
                return s and dict(s, M=rng.uniform(1, 9), mu=rng.uniform(1, 9))
            out.append(kd.vc("inverse maps", ["apex_from_constants", "StableOrbit.from_constants"], body(kd), sampler=smp, min_obligations=60))
        return out

    def cases(self, rng, tier):
        for i in range(400 if tier == "quick" else 6000):
            a, p, e, x = stable_orbit(rng, i, 0.95, circular=False)
            if e > 0:
                yield dict(kind="stable", a=a, p=p, e=e, x=x, phases=phases(rng, i), M=rng.choice([None, 1e6, 3.3]), mu=rng.choice([None, 10, .4]))

    def check(self, inp):
        o = Concrete(inp)
        if not o.ok:
            return []
        m = kg()
        a, p, e, x = o.args
        E, Lz, Q = (float(v) for v in m["constants"].constants_of_motion(a, p, e, x))
        rr = [float(v) for v in spec.radial_roots(o.sa, p, e, std(a, x)[1], o.consts)]
        out = []
        # conditioning of the roots: coefficients carry relative errors ~1e-15
        big = 1 + rr[0]
        def cond(i):
            d = 1.0
            for j in range(4):
                if j != i:
                    d *= abs(rr[i] - rr[j]) / big
            return 1e-13 * big / (d + 1e-300)
        err = cond(0) + cond(1)
        if err > 1e-3:
            return []
        tol = 1e-9 + 30 * err
        # the larger polar root z+ sets the absolute accuracy of z-
        zp = 1 + o.consts[1] ** 2 / (a * a * (1 - o.consts[0] ** 2) * x * x) if a else 1.0
        xtol = 1e-9 / max(abs(x), .01) + 1e-14 * zp / max(abs(x), .01)
        got = m["constants"].apex_from_constants(a, E, Lz, Q)

        def cmp(nm, v, w, t):
            if isinstance(v, complex) or not abs(float(v) - w) <= t:
                out.append(f"{nm}: {v!r}, required {w!r}")
        for n, v, w in zip("apex", got, (a, p, e, x)):
            cmp(f"apex_from_constants {n}", v, w, {"a": 0, "p": tol * (1 + p), "e": tol, "x": xtol}[n])
        if out:
            return out
        q, M, mu = tuple(o.q), inp.get("M"), inp.get("mu")
        cls = m["stable"].StableOrbit
        for nm, b in (("positional", cls.from_constants(a, E, Lz, Q, q, M, mu)), ("keyword", cls.from_constants(a, E, Lz, Q, initial_phases=q, M=M, mu=mu))):
            r = cls(a, p, e, x, q, M, mu)
            if tuple(b.initial_phases) != q or b.M != M or b.mu != mu:
                out.append(f"from_constants ({nm}): phases {b.initial_phases}, M={b.M}, mu={b.mu}; given {q}, {M}, {mu}")
            if type(b) is not cls:
                out.append(f"from_constants returns a {type(b).__name__}")
            for n, w in zip("apex", (a, p, e, x)):
                cmp(f"from_constants ({nm}) {n}", getattr(b, n), w, {"a": 0, "p": tol * (1 + p), "e": tol, "x": xtol}[n])
            for n in ("E", "L", "Q", "upsilon_r", "upsilon_theta", "upsilon_phi", "omega_phi"):
                cmp(f"from_constants ({nm}) {n}", getattr(b, n), float(getattr(r, n)), (1e-7 + 1e3 * tol + 20 * xtol) * (1 + abs(float(getattr(r, n)))))
            if tol < 1e-8 and xtol < 1e-7:
                for i in range(4):
                    cmp(f"from_constants ({nm}) initial_position[{i}]", b.initial_position[i], float(r.initial_position[i]), 1e-4 * (1 + abs(float(r.initial_position[i]))))
        d = cls.from_constants(a, E, Lz, Q)
        if tuple(d.initial_phases) != (0, 0, 0, 0) or d.M is not None or d.mu is not None:
            out.append("from_constants without phases or masses is not the default orbit")
        return out[:6]


PROP = C03()
