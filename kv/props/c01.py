"""C01 constants of motion"""
from .base import *
from ..vc import Undecided

A, P, E_, X, EN = var("a"), var("p"), var("e"), var("x"), var("E")
PSEP = var("psep")
FUN = ["energy", "angular_momentum", "carter_constant", "constants_of_motion", "_coefficients", "_coefficients_derivative",
       "_standardize_params", "is_stable", "valid_params"]
STUB = {"separatrix": lambda a, e, x: PSEP}


def fghd(a, r, x):
    """spec: R(r) = f E^2 - 2 g E L - h L^2 - d for Q = (1-x^2)(a^2 (1-E^2) + L^2/x^2)"""
    D, z2 = r * r - 2 * r + a * a, 1 - x * x
    return ((r * r + a * a) ** 2 - D * a * a * (1 - z2), a * (r * r + a * a) - a * D, D / (x * x) - a * a, D * (r * r + z2 * a * a))


def dfghd(a, r, x):
    D, D1, z2 = r * r - 2 * r + a * a, 2 * r - 2, 1 - x * x
    return (4 * r * (r * r + a * a) - D1 * a * a * (1 - z2), 2 * a * r - a * D1, D1 / (x * x), D1 * (r * r + z2 * a * a) + D * 2 * r)


def polarZ(K, a, E, L, Q, x, nm):
    K.zero(f"{nm}: Z(1-x^2) = 0", spec.Z_coefficients(a, E, L, Q)[0] + (1 - x * x) * spec.Z_coefficients(a, E, L, Q)[1]
           + (1 - x * x) ** 2 * spec.Z_coefficients(a, E, L, Q)[2])


def quad(c1, c2):
    (f1, g1, h1, d1), (f2, g2, h2, d2) = c1, c2
    ka, rh, si = d1 * h2 - h1 * d2, f1 * h2 - h1 * f2, g1 * h2 - h1 * g2
    ep, et = d1 * g2 - g1 * d2, f1 * g2 - g1 * f2
    return rh * rh + 4 * et * si, ka * rh + 2 * ep * si, ka * ka


def turning(e):
    """coefficients at the two turning points (value and derivative for a double one)"""
    def f(a, p, x):
        if e == 0:
            return fghd(a, p, x), dfghd(a, p, x)
        return fghd(a, p / (1 - E_), x), fghd(a, p / (1 + E_), x)
    return f


def generic(sx, e):
    def b(K):
        from .rootchoice import Q as Roots
        C = K.constants
        x = X if sx > 0 else -X
        c1, c2 = turning(e)(A, P, x)
        ee = S(0) if e == 0 else E_
        En = C.energy(A, P, ee, x)
        Aq, Bq, Cq = quad(c1, c2)
        K.zero("E^2 solves the elimination quadratic of R(r1)=R(r2)=0", Aq * En**4 - 2 * Bq * En**2 + Cq)
        K.true("E >= 0", le(0, En))
        L = C.angular_momentum(A, P, ee, x, EN)
        Q = C.carter_constant(A, P, ee, x, EN, L)
        r1 = P if e == 0 else P / (1 - E_)
        K.zero("R(r1) = 0 for any E", spec.R(A, EN, L, Q, r1))
        polarZ(K, A, EN, L, Q, x, "any E, L")
        f2, g2, h2, d2 = c2
        # which roots are taken (the lemmas "root choice" start here)
        q = Roots(c1, c2 if e else [-t for t in c2], sx)
        K.zero("E^2 is the root B - 2 sign(x) T of the quadratic", En**2 * q.A - q.B + 2 * sx * q.T)
        K.zero("the conjugate form of the root", En**2 * (q.B + 2 * sx * q.T) - q.kappa**2)
        K.zero("sign(x) (h1 L + E g1) is a square root", sx * (c1[2] * L + EN * c1[1]) - sqrt(EN**2 * (c1[1]**2 + c1[0] * c1[2]) - c1[3] * c1[2]))
        L2 = -2 * c1[1] * EN / c1[2] - L
        R2 = (spec.R(A, EN, L, Q, P / (1 + E_)) if e else spec.dR(A, EN, L, Q, P))
        R2c = f2 * EN**2 - 2 * g2 * EN * L2 - h2 * L2**2 - d2
        K.zero("R(r2) times its conjugate is the quadratic", R2 * R2c * c1[2] ** 2 - (Aq * EN**4 - 2 * Bq * EN**2 + Cq))
        # optional arguments
        K.eq("angular_momentum() = angular_momentum(E)", C.angular_momentum(A, P, ee, x), C.angular_momentum(A, P, ee, x, En))
        Ln = C.angular_momentum(A, P, ee, x, En)
        Qn = C.carter_constant(A, P, ee, x, En, Ln)
        K.eq("carter_constant()", C.carter_constant(A, P, ee, x), Qn)
        K.eq("carter_constant(E)", C.carter_constant(A, P, ee, x, E=En), Qn)
        K.eq("carter_constant(L)", C.carter_constant(A, P, ee, x, L=Ln), Qn)
        for n, u, v in zip("ELQ", C.constants_of_motion(A, P, ee, x), (En, Ln, Qn)):
            K.eq(f"constants_of_motion {n}", u, v)
    return b


def direct(a, e, x):
    """a = 0, e = 1 or x = 0: R(r1) = R(r2) = 0 for the values returned"""
    def b(K):
        C = K.constants
        av = S(0) if a == 0 else A
        ev = S(e) if e in (0, 1) else E_
        xv = S(0) if x == 0 else (X if x > 0 else -X)
        E, L, Q = C.constants_of_motion(av, P, ev, xv)
        if e == 1:
            K.eq("E = 1", E, 1)
        else:
            r1 = P if e == 0 else P / (1 - E_)
            K.zero("R(r1) = 0", spec.R(av, E, L, Q, r1))
        if e == 0:
            K.zero("R'(r0) = 0", spec.dR(av, E, L, Q, P))
        else:
            K.zero("R(r2) = 0", spec.R(av, E, L, Q, P / (1 + ev)))
        if x == 0:
            K.zero("L = 0", L)
        else:
            polarZ(K, av, E, L, Q, xv, "returned")
            if e == 1 and a:
                f2, g2, h2, d2 = fghd(av, P / 2, xv)
                K.zero("sign(x) (h2 L + g2) is a square root", x * (h2 * L + g2) - sqrt(g2**2 + (f2 - d2) * h2))
            elif a == 0 and e != 1:
                f1, g1, h1, d1 = fghd(av, r1, xv)
                K.zero("sign(x) h1 L is a square root", x * h1 * L - sqrt((E**2 * f1 - d1) * h1))
                K.true("h1 > 0: L has the sign of x", lt(0, (r1 * r1 - 2 * r1)))
            else:
                K.true("L has the sign of x", le(0, x * L))
        K.eq("carter_constant()", C.carter_constant(av, P, ev, xv), Q)
        K.eq("angular_momentum()", C.angular_momentum(av, P, ev, xv), L)
        K.eq("carter_constant(E)", C.carter_constant(av, P, ev, xv, E=E), Q)
        K.eq("carter_constant(E,L)", C.carter_constant(av, P, ev, xv, E, L), Q)
        K.eq("energy()", C.energy(av, P, ev, xv), E)
    return b


def negative(sx):
    def b(K):
        C = K.constants
        x = X if sx > 0 else -X
        for nm, f in (("energy", C.energy), ("angular_momentum", C.angular_momentum), ("carter_constant", C.carter_constant)):
            K.eq(f"{nm}(-a,x) = {nm}(a,-x)", f(-A, P, E_, x), f(A, P, E_, -x))
    return b


class C01(Prop):
    id = "C01"
    explanation = ("energy, angular_momentum, carter_constant are executed symbolically on every branch (generic, circular, marginally "
                   "bound, polar, a=0, a<0, optional arguments); R(r1)=0 and Z(1-x^2)=0 for all parameters, in the special branches R(r2)=0 "
                   "directly.  In the generic branch E^2 is proved to be the root B - 2 sign(x) T of the elimination quadratic and L the root "
                   "with sign(x) (h1 L + E g1) >= 0; lemmas (signs of the determinants outside the horizon, identities between them, a chain "
                   "of implications) then give that the radicands are positive and the divisors not zero, R(r2)=0 (R'(r0)=0 for e=0) and the "
                   "sign of L.")
    assumptions = ["prograde orbits with p < 4: B > 0 or A < 0 (the root E is real; proved for p > 4 and for x < 0), evaluated on sampled orbits "
                   "only (bounded)",
                   "separatrix is replaced by a free value below p (contract C05: it is at least (1+e) r+, and more than 5.26 for x <= 0)"]
    monitor_seconds = 40

    def vcs(self, tier):
        pre = [lt(0, A), lt(A, 1), lt(0, E_), lt(E_, 1), lt(0, X), le(X, 1), lt(PSEP, P), lt(1, P), lt(0, PSEP)]
        out = []

        def mk(name, body, pre, smp, a=None, e=None, x=1):
            def conc(s):
                return dict(a=s["a"] if a is None else a, p=s["p"], e=s["e"] if e is None else e, x=(s["x"] if x else 0.0) * (x or 1))
            ev = S(e) if e in (0, 1) else E_
            # consequences of stability (C05): the periapsis lies outside the horizon and, without spin, p > 6 + 2e
            pre = pre + ([lt(6 + 2 * ev, P)] if a == 0 else [lt(1 + ev, P), lt(0, P * P - 2 * P * (1 + ev) + A**2 * (1 + ev)**2)])
            out.append(VC(name, FUN, body, pre, smp, stubs=STUB, concretize=conc, min_obligations=4))

        def smp(sx, a=(0.05, 0.95), e=(0.05, 0.85), x=(0.1, 0.95)):
            g = stable_sampler(a, e, x, sx if sx else 1, extra=lambda r: dict(E=r.uniform(.5, .99)))

            def f(rng):
                s = g(rng)
                if 0 < s["e"] < 1 and s["x"]:
                    E0 = float(spec.constants(s["a"], s["p"], s["e"], s["x"])[0])
                    s["E"] = E0 + rng.uniform(0, 1) * (0.9999 - E0)
                s["x"] = abs(s["x"])
                return s
            return f
        for sx in (1, -1):
            for e in (None, 0):
                pr = pre + [lt(0, EN), lt(EN, 1)]
                mk(f"generic x{'>' if sx > 0 else '<'}0 e={'e' if e is None else 0}", generic(sx, e if e == 0 else 1), pr,
                   smp(sx, e=(0.05, 0.85) if e is None else 0.0) if e is None else self.fix(smp(sx, e=0.0)), e=e, x=sx)
        for a, e, x in ((0, None, 1), (0, None, -1), (0, 0, 1), (0, 0, -1), (0, 1, 1), (0, 1, -1), (0, None, 0), (0, 0, 0), (0, 1, 0),
                        (1, None, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 1, -1)):
            sp = self.fix(smp(x, a=0.0 if a == 0 else (0.05, 0.95), e=(0.05, .85) if e is None else float(e), x=(0.1, .95) if x else 0.0))
            mk(f"special a={'a' if a else 0} e={'e' if e is None else e} x={x}", direct(a, e, x), pre, sp, a=None if a else 0.0, e=e, x=x)
        from .rootchoice import lemmas
        out += lemmas(FUN)
        for sx in (1, -1):
            def conc(s, sx=sx):
                return dict(a=-s["a"], p=s["p"], e=s["e"], x=s["x"] * sx)
            out.append(VC(f"negative spin {sx}", FUN, negative(sx), pre, smp(-sx), stubs=STUB, concretize=conc))
        return out

    @staticmethod
    def fix(g):
        """symbolic variables that a special branch does not use still need in-range values"""
        def f(rng):
            s = g(rng)
            s["e"] = s["e"] if 0 < s["e"] < 1 else 0.3
            s["a"] = s["a"] if s["a"] else 0.5
            s["x"] = s["x"] if s["x"] else 0.5
            return s
        return f

    def cases(self, rng, tier):
        # turning points on the ergosphere, nearly circular and nearly unbound orbits, vanishing divisor of the closed form of E
        for i in range(60 if tier == "quick" else 400):
            a, e, x = 1 - 10 ** rng.uniform(-3, -1.2), rng.random() * .5, 1.0
            if i % 3 == 0:
                ps = spec.separatrix(a, 0.0, 1.0, 1e-9)
                e = rng.uniform(0, 1 - ps / 2) if i % 2 else 0.0
                x = 1.0 if i % 4 < 2 or e else 1 - rng.random() * .01
                # r^2 - 2r + a^2 (1 - x^2) = 0 at the outer turning point
                p = (1 + math.sqrt(1 - a * a * (1 - x * x))) * (1 - e)
            elif i % 3 == 1:
                p, e = 2 * (1 + math.cos(2 / 3 * math.acos(a))), 0.0
            else:
                a, x = rng.uniform(.1, .9), rng.choice([1, -1]) * rng.uniform(.05, 1)
                e = 10 ** rng.uniform(-16, -3) if i % 2 else 1 - 10 ** rng.uniform(-3, -1)
                p = spec.separatrix(a, e, x, 1e-9) + rng.uniform(.1, 10)
            ps = spec.separatrix(a, e, x, 1e-9)
            if ps is not None and p > ps + 1e-3:
                yield dict(a=a, p=p, e=e, x=x)
        for i in range(480 if tier == "quick" else 4000):
            a, p, e, x = stable_orbit(rng, i, 0.97, polar=True, marginal=True, negative=i % 5 == 4)
            yield dict(a=a, p=p, e=e, x=x)

    def check(self, inp):
        a, p, e, x = (float(inp[k]) for k in "apex")
        C = kg()["constants"]
        sa, sx = std(a, x)
        ref = spec.constants(sa, p, e, sx)
        if ref is None:
            return []
        out = []
        got = C.constants_of_motion(a, p, e, x)
        # conditioning: the closed form of E cancels for small spin, so allow a little more than rounding
        tol = 2e-8
        for n, u, v in zip("ELQ", got, ref):
            out.append(bad(n, u, v, tol, tol * (1 if n == "E" else 1e-1) if n != "Q" else 1e-7))
        E, L, Q = got
        if e == 1 and E != 1:
            out.append(f"E={E!r} for a marginally bound orbit")
        if x == 0 and L != 0:
            out.append(f"L={L!r} for a polar orbit")
        for n, v, w in (("energy()", C.energy(a, p, e, x), E), ("angular_momentum()", C.angular_momentum(a, p, e, x), L),
                        ("angular_momentum(E)", C.angular_momentum(a, p, e, x, E), L),
                        ("carter_constant()", C.carter_constant(a, p, e, x), Q), ("carter_constant(E)", C.carter_constant(a, p, e, x, E), Q),
                        ("carter_constant(L)", C.carter_constant(a, p, e, x, L=L), Q),
                        ("carter_constant(E,L)", C.carter_constant(a, p, e, x, E=E, L=L), Q)):
            out.append(bad(n, v, w, 1e-11, 1e-11))
        if 0 < e < 1 and x != 0 and self.n % 7 == 0:
            o = kg()["stable"].StableOrbit(a, p, e, x)
            for n, v, w in zip("ELQ", (o.E, o.L, o.Q), got):
                out.append(bad("StableOrbit." + n, v, w, 1e-12, 1e-12))
        if self.n % 5 == 0:
            out += typed([(n, getattr(C, n)) for n in ("constants_of_motion", "energy", "angular_momentum", "carter_constant")], whole_orbit(a, p, e, x, self.n // 5))
        self.n += 1
        return out
    n = 0


PROP = C01()
