"""C15 metric, norm, horizons"""
from .base import *
from ..vc import opaque


def ref_metric(a, r, th):
    return spec.metric(a, r, fn("cos", th) ** 2, fn("sin", th) ** 2)


A, RR, TH, T0, PH = var("a"), var("r"), var("th"), var("t"), var("ph")


def smp(rng):
    return dict(a=rng.choice([rng.uniform(-.99, .99), 0.0, rng.uniform(0, .99)]), r=rng.uniform(0.05, 30), th=rng.uniform(.05, 3.1),
                t=rng.uniform(-9, 9), ph=rng.uniform(-9, 9), v0=rng.gauss(0, 1), v1=rng.gauss(0, 1), v2=rng.gauss(0, 1), v3=rng.gauss(0, 1))


V = [var(f"v{i}") for i in range(4)]


def body(zero_spin):
    def b(K):
        a = S(0) if zero_spin else A
        st = K.spacetime.KerrSpacetime(a)
        g = st.metric(T0, RR, TH, PH)
        ref = ref_metric(a, RR, TH)
        for i in range(4):
            for j in range(4):
                K.eq(f"g[{i}][{j}] is the Kerr component", g[i][j] if isinstance(g, (list, tuple)) else g[i, j], ref[i][j])
                if i < j:
                    K.eq(f"g[{i}][{j}] symmetric", g[i, j], g[j, i])
        # determinant (block structure is established by the zero components above)
        det = (g[0, 0] * g[3, 3] - g[0, 3] * g[3, 0]) * g[1, 1] * g[2, 2]
        sg = RR**2 + a**2 * fn("cos", TH) ** 2
        K.eq("determinant is -Sigma^2 sin^2", det, -(sg**2) * fn("sin", TH) ** 2)
        n = st.norm(T0, RR, TH, PH, V)
        K.eq("norm is the quadratic form", n, sum(V[i] * V[j] * ref[i][j] for i in range(4) for j in range(4)))
        n = st.norm(T0, RR, TH, PH, tuple(V))
        K.eq("norm of a tuple", n, sum(V[i] * V[j] * ref[i][j] for i in range(4) for j in range(4)))
        for nm, h in (("inner", st.inner_horizon), ("outer", st.outer_horizon)):
            K.zero(f"{nm} horizon is a zero of Delta", h * h - 2 * h + a * a)
        K.true("horizons in increasing order", le(st.inner_horizon, st.outer_horizon))
    return b


class C15(Prop):
    id = "C15"
    explanation = ("KerrSpacetime.metric/norm/__init__ are executed on symbolic spin, position and vector; every component "
                   "is proved equal to the Boyer-Lindquist component for all arguments.")
    assumptions = ["Delta != 0, Sigma != 0 (preconditions of the statement)"]

    def vcs(self, tier):
        pre = [lt(-1, A), lt(A, 1)]
        f = ["KerrSpacetime.__init__", "KerrSpacetime.metric", "KerrSpacetime.norm"]
        conc = lambda s: dict(a=s["a"], x=[s["t"], s["r"], s["th"], s["ph"]], v=[s[f"v{i}"] for i in range(4)])
        return [VC("metric", f, body(False), pre, smp, concretize=conc, min_obligations=20),
                VC("metric a=0", f, body(True), [], smp, concretize=lambda s: dict(conc(s), a=0.0), min_obligations=20)]

    def cases(self, rng, tier):
        for i in range(400 if tier == "quick" else 4000):
            s = smp(rng)
            a = s["a"]
            r = s["r"]
            th = s["th"]
            k = i % 8
            if k == 0:
                a = 0.0
            if k == 1:
                r = rng.uniform(100, 1e6)
            if k == 2:
                th = math.pi / 2
            if k == 3:
                th = rng.choice([-1, 1]) * rng.uniform(3.3, 9)
            if k == 4:
                r = 1 + math.sqrt(1 - a * a) * rng.uniform(-1, 1)
            if k == 5:
                r, th = rng.randrange(3, 9), rng.randrange(1, 3)
            if k == 6:
                a = rng.choice([0.999999, -0.999999, 1e-9])
            yield dict(a=a, x=[s["t"], r, th, s["ph"]], v=[s[f"v{j}"] for j in range(4)])

    def check(self, inp):
        a, (t, r, th, ph), v = inp["a"], inp["x"], inp["v"]
        d = r * r - 2 * r + a * a
        if abs(d) < 1e-6:
            return []
        st = kg()["spacetime"].KerrSpacetime(a)
        out = [bad("inner horizon", st.inner_horizon, 1 - math.sqrt(1 - a * a)),
               bad("outer horizon", st.outer_horizon, 1 + math.sqrt(1 - a * a))]
        g = np.array(st.metric(t, r, th, ph), dtype=float)
        ref = spec.metric(a, r, math.cos(th) ** 2, math.sin(th) ** 2)
        for i in range(4):
            for j in range(4):
                out.append(bad(f"g[{i}][{j}]", g[i, j], ref[i][j], 1e-9, 1e-11))
        n = sum(v[i] * v[j] * ref[i][j] for i in range(4) for j in range(4))
        sc = sum(abs(v[i] * v[j] * ref[i][j]) for i in range(4) for j in range(4))
        for vv in (v, tuple(v), np.array(v)):
            out.append(bad("norm", st.norm(t, r, th, ph, vv), n, 1e-9, 1e-10 * (1 + sc)))
        self.n += 1
        if self.n % 5 == 0:
            y = [a if self.n % 2 else 0.0, t, 3.0 + math.ceil(r), float(1 + self.n % 2) if self.n % 3 else th, ph, *v]
            for i in range(5 + self.n % 4):
                y[-1 - i] = float(round(y[-1 - i])) if i < 4 else y[-1 - i]
            K_ = kg()["spacetime"].KerrSpacetime
            out += typed([("metric", lambda *z: K_(z[0]).metric(*z[1:5])), ("norm", lambda *z: K_(z[0]).norm(*z[1:5], z[5:])),
                          ("norm of an array", lambda *z: K_(z[0]).norm(*z[1:5], np.array(z[5:])))], y)
        return out
    n = 0


PROP = C15()
