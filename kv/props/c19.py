"""C19 elliptic integrals"""
from .base import *
import mpmath
from mpmath import mp

J, D, M_, N_ = S(T.var("int_j")), var("d"), var("m"), var("n")
HALF = PI / 2


def leg(name, phi, *rest):
    return T.Sym(T.mk("fn", [N(phi)] + [N(x) for x in rest], name))


def body(which, q):
    def b(K):
        phi = 2 * J * PI + q * HALF + D
        if which == "E":
            got = K.frequencies._ellipeinc(phi, M_)
            full, rest, nm = fn("E", M_), (M_,), "Einc"
        else:
            got = K.frequencies._ellippiinc(phi, N_, M_)
            full, rest, nm = fn("Pi", N_, M_), (N_, M_), "Piinc"
        # odd, quasi-periodic extension of the defining integral on [0, pi/2]
        ref = {0: leg(nm, D, *rest), 1: 2 * full - leg(nm, HALF - D, *rest), 2: 2 * full + leg(nm, D, *rest),
               3: 4 * full - leg(nm, HALF - D, *rest)}[q]
        K.eq(f"{nm}(2 pi j + {q} pi/2 + d) is the defining integral", got, 4 * J * full + ref)
    return b


def complete(K):
    K.eq("_ellippi is the complete integral", K.frequencies._ellippi(N_, M_), fn("Pi", N_, M_))


def smp(rng):
    return dict(int_j=rng.randint(-40, 40), d=rng.choice([rng.uniform(0.02, 1.55)] * 5 + [0]), m=rng.choice([rng.uniform(.01, .99), -rng.uniform(0, 5)]),
                n=rng.choice([rng.uniform(.01, .99), -rng.uniform(0, 9)]))


class C19(Prop):
    id = "C19"
    explanation = ("_ellipeinc, _ellippiinc and _ellippi are executed with phi = 2 pi j + q pi/2 + d for a symbolic integer j, each "
                   "quadrant q and symbolic d, m, n; the result is proved equal to the odd quasi-periodic extension of Legendre's integral.")
    assumptions = ["scipy.special.elliprf/elliprd/elliprj with a unit argument are Legendre's integrals (DLMF 19.25), ellipe is the "
                   "complete integral", "rounding at exact multiples of pi/2 is covered by the numeric contracts only (bounded)"]
    monitor_seconds = 30

    def vcs(self, tier):
        if not all(hasattr(kg()["frequencies"], n) for n in ("_ellipeinc", "_ellippiinc", "_ellippi")):
            return []
        pre = [le(0, D), lt(D, HALF), lt(M_, 1), lt(N_, 1)]
        out = [VC("ellippi", ["_ellippi"], complete, pre, smp, concretize=self.conc)]
        for w, f in (("E", "_ellipeinc"), ("Pi", "_ellippiinc")):
            for q in range(4):
                out.append(VC(f"{f} quadrant {q}", [f], body(w, q), pre, smp, concretize=lambda s, q=q: self.conc(s, q)))
        return out

    def conc(self, s, q=0):
        return dict(phi=2 * math.pi * s["int_j"] + q * math.pi / 2 + s["d"], m=s["m"], n=s["n"])

    def cases(self, rng, tier):
        for i in range(700 if tier == "quick" else 6000):
            s = smp(rng)
            phi = rng.choice([rng.uniform(-1.6, 1.6), rng.uniform(-40, 40), rng.uniform(-7, 7), rng.uniform(-900, 900)])
            if i % 6 == 0:
                phi = rng.randint(-9, 9) * math.pi / 2 + rng.choice([0, 1e-9, -1e-9, 1e-4, -1e-4, 0.05, -0.05])
            if i % 13 == 0:
                s["m"] = rng.choice([0.0, 0.5, 0.999, -1.0, 1e-6])
            if i % 17 == 0:
                s["n"] = rng.choice([0.0, 0.99, -25.0, 1e-6])
            yield dict(phi=phi, m=s["m"], n=s["n"])
        # observed through the trajectory: t and phi over many radial and polar periods, either direction of time
        for i in range(16 if tier == "quick" else 120):
            yield dict(orbit=list(spec.sample_stable(rng)), k=rng.randint(-6, 6), s=rng.uniform(-1, 1))

    def check(self, inp):
        if "orbit" in inp:
            return self.periods(inp)
        F = kg()["frequencies"]
        phi, m, n = inp["phi"], inp["m"], inp["n"]
        out = []
        # near odd multiples of pi/2 the range reduction arcsin(sin(phi)) resolves the amplitude to ~1e-8 only
        d = 3e-8 if abs(math.cos(phi)) < 0.01 else 1e-9 * (1 + abs(phi) / 100)
        te, tp = d * math.sqrt(abs(1 - m) + 1), d * (1 + 1 / ((1 - n) * math.sqrt(1 - m)))
        with mp.workdps(30):
            def ref(f, g):
                k = int(mp.nint(mp.mpf(phi) / mp.pi))
                r = mp.mpf(phi) - k * mp.pi
                return float((2 * k * g if k else 0) + f(r))
            e = ref(lambda r: mp.re(mp.ellipe(r, m)), mp.ellipe(m))
            p = ref(lambda r: mp.re(mp.ellippi(n, r, m)), mp.re(mp.ellippi(n, m)))
            pc = float(mp.re(mp.ellippi(n, m)))
        if hasattr(F, "_ellipeinc"):
            out.append(bad(f"E({phi},{m})", F._ellipeinc(phi, m), e, 1e-9, te))
            out.append(bad("E of an array", np.asarray(F._ellipeinc(np.array([0.3, phi, -phi]), m))[1], e, 1e-9, te))
            out.append(bad("E of an array, odd", np.asarray(F._ellipeinc(np.array([0.3, phi, -phi]), m))[2], -e, 1e-9, te))
        if hasattr(F, "_ellippiinc"):
            out.append(bad(f"Pi({phi},{n},{m})", F._ellippiinc(phi, n, m), p, 1e-9, tp))
            out.append(bad("Pi of an array", np.asarray(F._ellippiinc(np.array([0.3, phi, -phi]), n, m))[1], p, 1e-9, tp))
        A2 = np.array([[phi, 0.3], [2.0, -phi], [-phi, phi]])
        for nm, f, w, tol in (("E", lambda x: F._ellipeinc(x, m), e, te), ("Pi", lambda x: F._ellippiinc(x, n, m), p, tp)):
            if hasattr(F, "_ellipeinc" if nm == "E" else "_ellippiinc"):
                for sh, x in (("2-dimensional", A2), ("read-only", A2.T), ("one-element", A2[:1, 0])):
                    keep = x.copy()
                    v = np.asarray(f(x))
                    if v.shape != x.shape or not np.array_equal(keep, x):
                        out.append(f"{nm} of a {sh} array: shape {v.shape} for {x.shape}, or the amplitudes were changed")
                    else:
                        out += [bad(f"{nm} of a {sh} array", g, w if y == phi else -w, 1e-9, tol) for g, y in zip(v.ravel(), x.ravel()) if abs(y) == abs(phi)]
        if hasattr(F, "_ellippi"):
            out.append(bad("Pi complete", F._ellippi(n, m), pc, 1e-10, 1e-11))
        return out

    def periods(self, inp):
        m = kg()
        o = m["stable"].StableOrbit(*inp["orbit"])
        _, _, _, ph = o.trajectory()
        tr, tth, pr, pth = o.trajectory_deltas()
        k, s = inp["k"], inp["s"]
        out = []
        for nm, f, odd in (("t_r", tr, 1), ("t_theta", tth, 1), ("phi_r", pr, 1), ("phi_theta", pth, 1)):
            sc = max(abs(f(1.0)), abs(f(2.0)), 1)
            out.append(bad(f"{nm} is 2 pi periodic", f(s + 2 * math.pi * k), f(s), 1e-8, 1e-8 * sc))
            out.append(bad(f"{nm} is antisymmetric about the turning point", f(-s), 2 * f(0.0) - f(s), 1e-8, 1e-8 * sc))
        return out


PROP = C19()
