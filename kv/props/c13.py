"""C13 constants from initial conditions"""
from .base import *

A, RR, TH = var("a"), var("r"), var("th")
U = [var(f"u{i}") for i in range(4)]


def smp(rng, a=None):
    a = rng.uniform(-.99, .99) if a is None else a
    return dict(a=a, r=rng.uniform(0.05, 30), th=rng.uniform(.05, 3.1), u0=rng.gauss(1, 1), u1=rng.gauss(0, 1),
                u2=rng.gauss(0, .3), u3=rng.gauss(0, .3), t=0.3, ph=1.0)


def body(zero):
    def b(K):
        a = S(0) if zero else A
        f = K.initial_conditions.constants_from_initial_conditions
        E, L, Q = f(a, (S(T.var("t")), RR, TH, S(T.var("ph"))), tuple(U))
        c, s = fn("cos", TH), fn("sin", TH)
        g = spec.metric(a, RR, c * c, s * s)
        K.eq("E = -g(u,d_t)", E, -(g[0][0] * U[0] + g[0][3] * U[3]))
        K.eq("L = g(u,d_phi)", L, g[3][0] * U[0] + g[3][3] * U[3])
        sg = RR**2 + a**2 * c * c
        # polar equation: (Sigma u^theta sin)^2 = Z(cos theta)
        K.eq("Q satisfies the polar equation", (sg * U[2] * s) ** 2, spec.Z(a, E, L, Q, c))
        # radial equation on the unit mass shell: R(r0) = (Sigma u^r)^2 once g(u,u) = -1 is used to eliminate u^r
        norm_rest = sum(g[i][j] * U[i] * U[j] for i in (0, 2, 3) for j in (0, 2, 3))
        ur2 = (-1 - norm_rest) / g[1][1]
        K.eq("R(r0) = (Sigma u^r)^2 for unit timelike u", spec.R(a, E, L, Q, RR), sg**2 * ur2)
    return b


class C13(Prop):
    id = "C13"
    explanation = ("constants_from_initial_conditions is executed on symbolic spin, position and velocity; E, L, Q are proved "
                   "to be the Killing contractions and to satisfy the polar and radial equations for all arguments.")
    assumptions = ["numpy.linalg.solve returns the solution of the 2x2 system (contract: Cramer's rule)",
                   "sin(theta) != 0, Delta != 0 (preconditions)"]

    def vcs(self, tier):
        conc = lambda s: dict(a=s["a"], x=[s.get("t", .3), s["r"], s["th"], s.get("ph", 1.)], u=[s[f"u{i}"] for i in range(4)])
        f = ["constants_from_initial_conditions"]
        return [VC("constants", f, body(False), [lt(-1, A), lt(A, 1)], smp, concretize=conc, min_obligations=4),
                VC("constants a=0", f, body(True), [], lambda r: smp(r, 0.0), concretize=conc, min_obligations=4)]

    def cases(self, rng, tier):
        for i in range(600 if tier == "quick" else 6000):
            s = smp(rng)
            a, r, th = s["a"], s["r"], s["th"]
            u = [s[f"u{j}"] for j in range(4)]
            k = i % 7
            if k == 0:
                a = 0.0
            if k == 1:
                th = math.pi / 2
            if k == 2:
                u[2] = 0.0
            if k == 3:
                u[1] = 0.0
                r = rng.uniform(2.1, 400)
            if k == 4:
                u[3] = -abs(u[3])
            if k == 5:
                u[3] = 0.0
            if i % 5 == 2:
                # far away, close to the axis, tiny or vanishing components, non-positive and fast velocities
                r = 10 ** rng.uniform(0.5, 6)
                u[2] /= r
                u[3] /= r
            if i % 11 == 3:
                th = rng.choice([10 ** rng.uniform(-2.5, -1), math.pi - 10 ** rng.uniform(-2.5, -1)])
            if i % 13 == 4:
                u[rng.randrange(4)] *= rng.choice([1e-6, 1e-3, -1, 1e3])
            if i % 17 == 5:
                a = rng.choice([1e-9, -1e-9, .9999999, -.9999999, 1e-4])
            if i % 19 == 6:
                th, r = rng.choice([th, math.pi / 2 * (1 + 1e-9), math.pi - th]), rng.choice([r, 2.0, 4.0, float(rng.randrange(3, 60))])
            yield dict(a=a, x=[s["t"], r, th, s["ph"]], u=u)

    def check(self, inp):
        a, x, u = inp["a"], inp["x"], inp["u"]
        t, r, th, ph = x
        D = r * r - 2 * r + a * a
        if abs(D) < 1e-3 or abs(math.sin(th)) < 1e-3:
            return []
        f = kg()["initial_conditions"].constants_from_initial_conditions
        E, L, Q = f(a, tuple(x), tuple(u))
        c2, s2 = math.cos(th) ** 2, math.sin(th) ** 2
        g = spec.metric(a, r, c2, s2)
        # rounding: relative to the terms of each sum
        k = (1 + 1 / abs(D)) * (1 + 1 / r**2) / s2
        se, sl = (sum(abs(g[i][j] * u[j]) for j in (0, 3)) for i in (0, 3))
        se += abs(u[0]) + abs(u[3])
        Er, Lr = -(g[0][0] * u[0] + g[0][3] * u[3]), g[3][0] * u[0] + g[3][3] * u[3]
        out = [bad("E", E, Er, 0, 1e-11 * k * se), bad("L", L, Lr, 0, 1e-11 * k * (sl + se * r * s2))]
        sg = r * r + a * a * c2
        Qr = ((sg * u[2]) ** 2 * s2 + c2 * (a * a * (1 - Er**2) * s2 + Lr**2)) / s2
        sq = (sg * u[2]) ** 2 + a * a * (1 + se * se) + c2 * (sl + se * r * s2) ** 2 / s2
        out.append(bad("Q", Q, Qr, 0, 1e-11 * k * sq))
        self.n += 1
        if self.n % 5 == 0:
            y = [a if self.n % 2 else 0.0, t, 3.0 + math.ceil(r), *x[2:], *u]
            for i in range(self.n % 7, 9, 3):
                y[i] = float(round(y[i])) if i not in (0, 3) else y[i]
            if self.n % 3 == 0:
                y[3] = 1.0
            for nm, box in (("tuples", tuple), ("lists", list), ("arrays", np.array)):
                out += typed([("constants_from_initial_conditions, " + nm, lambda *z: f(z[0], box(z[1:5]), box(z[5:])))], y)
        return out
    n = 0


PROP = C13()
