"""C02 roots of the potentials of stable orbits"""
from .base import *

A, P, E_, X = var("a"), var("p"), var("e"), var("x")
E, L, Q, RR, ZZ = var("E"), var("L"), var("Q"), var("r"), var("z")
STUB = {"constants_of_motion": lambda *a: (E, L, Q)}


def radial(e):
    def b(K):
        ev = S(0) if e == 0 else E_
        f = K.constants.stable_radial_roots
        roots = f(A, P, ev, X, (E, L, Q))
        r1, r2, r3, r4 = roots
        K.eq("r1 = p/(1-e)", r1, P / (1 - ev))
        K.eq("r2 = p/(1+e)", r2, P / (1 + ev))
        D = spec.R(A, E, L, Q, RR) - (1 - E**2) * (r1 - RR) * (RR - r2) * (RR - r3) * (RR - r4)
        # remainder of R modulo its two known zeros: vanishes for every r once R(r1) = R(r2) = 0
        R1, dR1 = spec.R(A, E, L, Q, P / (1 - ev)), spec.dR(A, E, L, Q, P / (1 - ev))
        R2 = spec.R(A, E, L, Q, P / (1 + ev))
        if e == 0:
            rem = RR * (R1 / P + (RR - P) * (dR1 - R1 / P) / P)
        else:
            q1, q2 = P / (1 - ev), P / (1 + ev)
            rem = R1 * RR * (RR - q2) / (q1 * (q1 - q2)) + R2 * RR * (RR - q1) / (q2 * (q2 - q1))
        K.eq("R(r) = (1-E^2) prod (r - r_i) modulo R(r1), R(r2)", D, rem)
        s = 2 / (1 - E**2) - P / (1 - ev) - P / (1 + ev)
        K.eq("r3 + r4", r3 + r4, s)
        K.eq("r3 - r4 is non-negative", r3 - r4, sqrt(s * s - 4 * A**2 * Q * (1 - ev**2) / (P**2 * (1 - E**2))))
        for n, u, v in zip(("r1", "r2", "r3", "r4"), f(A, P, ev, X), roots):
            K.eq(f"{n} without constants", u, v)
        for n, u, v in zip(("r1", "r2", "r3", "r4"), f(-A, P, ev, -X, (E, L, Q)), roots):
            K.eq(f"{n} with reversed spin", u, v)
    return b


def polar(a):
    def b(K):
        av = S(0) if a == 0 else A
        f = K.constants.stable_polar_roots
        zm = 1 - X**2
        beta = av**2 * (1 - E**2)
        q = zm * (beta + L**2 / X**2)          # Z(z-) = 0 (contract C01)
        r = f(av, P, E_, X, (E, L, q))
        K.eq("z- = 1-x^2", r[0], zm)
        if a:
            k = spec.Z_coefficients(av, E, L, q)
            K.eq("Z(z) = a^2 (1-E^2) (z- - z)(z+ - z)", k[0] + k[1] * ZZ + k[2] * ZZ**2, beta * (r[0] - ZZ) * (r[1] - ZZ))
            K.true("z- <= z+", le(r[0], r[1]))
            K.eq("z+ without constants", f(av, P, E_, X)[1], f(av, P, E_, X, (E, L, Q))[1])
        K.eq("z- without constants", f(av, P, E_, X)[0], zm)
    return b


class C02(Prop):
    id = "C02"
    explanation = ("stable_radial_roots and stable_polar_roots are executed on symbolic parameters with free constants; the factorised "
                   "potential is proved equal to R(r) modulo R(r1), R(r2) (zero by C01) for every r, and Z likewise.")
    assumptions = ["R(r1)=R(r2)=0 and Z(z-)=0 (contracts of C01)", "r2 >= r3 is stability (C05; here bounded)"]

    def vcs(self, tier):
        pre = [lt(0, A), lt(A, 1), lt(0, E_), lt(E_, 1), lt(0, X), lt(X, 1), lt(1, P), lt(0, E), lt(E, 1), le(0, Q)]

        def smp(rng):
            g = stable_sampler(sgn=1)(rng)
            c = [float(v) for v in spec.constants(g["a"], g["p"], g["e"], g["x"])]
            g.update(E=c[0], L=c[1], Q=c[2], r=rng.uniform(-3, 20), z=rng.uniform(-1, 2))
            return g

        def conc(e=None, a=None):
            return lambda s: dict(a=s["a"] if a is None else a, p=s["p"], e=s["e"] if e is None else e, x=s["x"])
        return [VC("radial", ["stable_radial_roots"], radial(1), pre, smp, stubs=STUB, concretize=conc(), min_obligations=8),
                VC("radial circular", ["stable_radial_roots"], radial(0), pre, smp, stubs=STUB, concretize=conc(e=0.0), min_obligations=8),
                VC("polar", ["stable_polar_roots"], polar(1), pre, smp, stubs=STUB, concretize=conc(), min_obligations=4),
                VC("polar a=0", ["stable_polar_roots"], polar(0), pre, smp, stubs=STUB, concretize=conc(a=0.0), min_obligations=2)]

    def cases(self, rng, tier):
        for i in range(420 if tier == "quick" else 4000):
            a, p, e, x = stable_orbit(rng, i, 0.95, negative=i % 5 == 4)
            yield dict(a=a, p=p, e=e, x=x)

    def check(self, inp):
        a, p, e, x = (float(inp[k]) for k in "apex")
        C = kg()["constants"]
        sa, sx = std(a, x)
        c = spec.constants(sa, p, e, sx)
        rr = c and spec.radial_roots(sa, p, e, sx, c)
        if rr is None or rr[1] - rr[2] < 1e-3:
            return []
        out = []
        cc = C.constants_of_motion(a, p, e, x)
        t = 1e-8 + 2e-12 * float(rr[0]) ** 2
        for nm, got in (("", C.stable_radial_roots(a, p, e, x)), (" from constants", C.stable_radial_roots(a, p, e, x, cc)),
                        (" from constants as keyword", C.stable_radial_roots(a, p, e, x, constants=cc))):
            for n, u, v in zip((1, 2, 3, 4), got, rr):
                out.append(bad(f"r{n}{nm}", u, v, 1e-8, t if n > 2 else 1e-12))
            if not (got[0] >= got[1] > got[2] >= got[3]):
                out.append(f"roots not in decreasing order{nm}: {got}")
        zm, bzp = spec.polar_roots(sa, *c, sx)
        beta = float(sa**2 * (1 - c[0] ** 2))
        for nm, got in (("", C.stable_polar_roots(a, p, e, x)), (" from constants", C.stable_polar_roots(a, p, e, x, cc))):
            out.append(bad("z-" + nm, got[0], zm, 1e-12, 1e-12))
            if a != 0:
                out.append(bad("z+" + nm, got[1], float(bzp) / beta, 1e-7, 1e-7))
                if got[0] > got[1]:
                    out.append("z- > z+" + nm)
        self.n += 1
        if self.n % 4 == 0:
            out += typed([(n, getattr(C, n)) for n in ("stable_radial_roots", "stable_polar_roots")], whole_orbit(a, p, e, x, self.n // 4, False))
        return out
    n = 0


PROP = C02()
