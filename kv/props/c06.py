"""C06 reversing spin and inclination together"""
from .base import *
from .orbits import *
from ..vc import opaque
from . import orbits

EARG, LARG, QARG = var("E"), var("L"), var("Q")
FREQ = ("r_frequency", "theta_frequency", "phi_frequency", "gamma")
MASSES = dict(M=1e6, mu=10)


def constants_values(C, a, p, e, x, E, L, Q):
    yield "energy", C.energy(a, p, e, x)
    yield "angular_momentum", C.angular_momentum(a, p, e, x)
    yield "angular_momentum with E", C.angular_momentum(a, p, e, x, E)
    yield "carter_constant", C.carter_constant(a, p, e, x)
    yield "carter_constant with E", C.carter_constant(a, p, e, x, E)
    yield "carter_constant with E, L", C.carter_constant(a, p, e, x, E, L)
    for n, v in zip("ELQ", C.constants_of_motion(a, p, e, x)):
        yield "constants_of_motion " + n, v


def frequency_values(F, a, p, e, x, c, ur, ut):
    for n in FREQ:
        yield n, getattr(F, n)(a, p, e, x)
        yield n + " with constants", getattr(F, n)(a, p, e, x, c)
    for n in FREQ[2:]:
        yield n + " with frequencies", getattr(F, n)(a, p, e, x, None, ur, ut)
        yield n + " with constants and frequencies", getattr(F, n)(a, p, e, x, c, ur, ut)
    for n, v in zip(FREQ, F.mino_frequencies(a, p, e, x)):
        yield "mino_frequencies " + n, v
    for n, v in zip(FREQ, F.fundamental_frequencies(a, p, e, x)):
        yield "fundamental_frequencies " + n, v


def orbit_values(St, a, p, e, x, q, q2, lam, neg, velocity=True):
    f = St.stable_trajectory(a, p, e, x, q)
    f2 = St.stable_trajectory(a, p, e, x)
    for n, g, g2 in zip(("t", "r", "theta", "phi"), f, f2):
        yield f"trajectory {n}", g(lam)
        yield f"trajectory {n}, default phases", g2(lam)
    for n, g in zip(("t", "r", "theta", "phi"), St.stable_trajectory(a, p, e, x, q, 1e6, "km", "days")):
        yield f"trajectory {n}, physical units", g(lam)
    o = St.StableOrbit(a, p, e, x, q, **MASSES)
    for n in ("a", "p", "e", "x", "E", "L", "Q", "upsilon_r", "upsilon_theta", "upsilon_phi", "gamma", "omega_r", "omega_theta", "omega_phi", "M", "mu"):
        yield f"orbit.{n}", getattr(o, n)
    for n, v in zip(("qt", "qr", "qtheta", "qphi"), o.initial_phases):
        yield f"orbit.initial_phases {n}", v
    for n, v in zip("apex", o.orbital_parameters() if hasattr(o, "orbital_parameters") else (o.a, o.p, o.e, o.x)):
        yield f"orbit parameter {n}", v
    for u in ("natural", "mks"):
        for n, v in zip("ELQ", o.constants_of_motion(u)):
            yield f"orbit.constants_of_motion({u}) {n}", v
        for n, v in zip(FREQ, o.mino_frequencies(u)):
            yield f"orbit.mino_frequencies({u}) {n}", v
        for n, v in zip(FREQ, o.fundamental_frequencies(u)):
            yield f"orbit.fundamental_frequencies({u}) {n}", v
    for i in range(4):
        yield f"orbit.initial_position[{i}]", o.initial_position[i]
        yield f"orbit.initial_velocity[{i}]", o.initial_velocity[i]
    for nm, ph in (("", None), ("(phases)", q2)):
        for n, g in zip(("t", "r", "theta", "phi"), o.trajectory(ph)):
            yield f"orbit.trajectory{nm} {n}", g(lam)
        for n, g in zip(("t_r", "t_theta", "phi_r", "phi_theta"), o.trajectory_deltas(ph)):
            yield f"orbit.trajectory_deltas{nm} {n}", g(lam)
        if velocity:
            for n, g in zip(("t", "r", "theta", "phi"), o.four_velocity(ph)):
                yield f"orbit.four_velocity{nm} {n}", g(lam)
        for n, g in zip(("t", "r", "theta", "phi"), o.numerical_four_velocity(dx=1e-4 if velocity else S(1) / 1000, initial_phases=ph)):
            yield f"orbit.numerical_four_velocity{nm} {n}", g(lam)


def both(K, f):
    """f(sign) for the two descriptions"""
    for (n, v), (n2, w) in zip(f(1), f(-1), strict=True):
        K.eq(n, v, w)


def sep(*a, **k):
    """the separatrix as an unknown function of its arguments (non-negative spin)"""
    v = dict(zip(("a", "e", "x"), a))
    v.update(k)
    return opaque("separatrix", v["a"], v["e"], v["x"])


class C06(Prop):
    id = "C06"
    explanation = ("Every constants, frequency and trajectory function and the StableOrbit object are executed twice on one symbolic orbit, as "
                   "(a,p,e,x) and as (-a,p,e,-x) with a>0, and each result is proved equal for generic, equatorial, circular, marginally bound "
                   "and (constants only) polar orbits of either direction.")
    assumptions = ["the separatrix is a function of its arguments (C05, C20)"]
    monitor_seconds = 45

    def vcs(self, tier):
        out = []
        stubs = {**ELL, "separatrix": sep}

        def smp(rng):
            a, p, e, x = stable_orbit(rng, 0, 0.8)
            return dict(a=a, p=p, e=e, x=abs(x), E=.9, L=3., Q=2., ur=1.1, ut=1.3, **phase_sample(rng))

        def wide(rng):
            s = smp(rng)
            return dict(s, p=s["p"] + 12)      # stable for every e and x of the VCs
        dom = [lt(0, A), lt(A, 1), lt(0, E_), lt(E_, 1), lt(0, X), lt(X, 1), lt(0, P)]
        for e, x in [(e, x) for e in (S(0), E_, S(1)) for x in (X, -X, S(1), S(-1), S(0))]:
            nm = f"e={'e' if e is E_ else e.n} x={'x' if x is X else '-x' if N(x).op != 'const' else x.n}"

            def conc(s, e=e, x=x):
                return dict(a=s["a"], p=s["p"], e=s["e"] if e is E_ else float(e.n.val),
                            x=s["x"] if x is X else -s["x"] if N(x).op != "const" else float(x.n.val), lam=s["lam"],
                            phases=[s["qt0"], s["qr0"], s["qth0"], s["qphi0"]])
            pre = dom + [lt(sep(A, e, x), P)]
            out.append(VC("constants " + nm, ["energy", "angular_momentum", "carter_constant", "constants_of_motion", "_standardize_params"],
                          lambda K, e=e, x=x: both(K, lambda s: constants_values(K.constants, s * A, P, e, s * x, EARG, LARG, QARG)), dom, wide,
                          stubs={**ELL, "is_stable": lambda *k, **kw: True}, concretize=conc, min_obligations=9))
            if N(x).op == "const" and x.n.val == 0 or e.n.op == "const" and e.n.val == 1:
                continue
            big = {**ELL, "separatrix": sep, "is_stable": lambda *k, **kw: True,
                   # constants and frequencies: unknown functions of their arguments that obey the contracts of the VCs above
                   "constants_of_motion": lambda a, p, e, x: tuple(opaque("const_" + n, *stdargs(a, p, e, x)) for n in "ELQ")}
            out.append(VC("frequencies " + nm, list(FREQ) + ["mino_frequencies", "fundamental_frequencies"],
                          lambda K, e=e, x=x: both(K, lambda s: frequency_values(K.frequencies, s * A, P, e, s * x, (EARG, LARG, QARG), var("ur"), var("ut"))),
                          dom, smp, stubs=big, concretize=conc, min_obligations=15))
            freq = dict(big, mino_frequencies=lambda a, p, e, x: tuple(opaque("mino_" + n, *stdargs(a, p, e, x)) for n in FREQ),
                        fundamental_frequencies=lambda a, p, e, x: tuple(opaque("fund_" + n, *stdargs(a, p, e, x)) for n in FREQ[:3]))

            def orbit_body(K, e=e, x=x):
                with quiet(K):
                    both(K, lambda s: orbit_values(K.stable, s * A, P, e, s * x, PH, (QPH, QT, QR, QTH), LAM, s < 0, False))
            out.append(VC("orbit " + nm, ["stable_trajectory", "StableOrbit.__init__", "StableOrbit.trajectory", "StableOrbit.trajectory_deltas",
                                          "Orbit.four_velocity", "Orbit.numerical_four_velocity", "radial_solutions", "polar_solutions"],
                          orbit_body, dom, smp, stubs=freq, concretize=conc, min_obligations=60))
        return out

    def cases(self, rng, tier):
        for i in range(200 if tier == "quick" else 4000):
            a, p, e, x = stable_orbit(rng, i, 0.95, polar=True, marginal=True)
            if a > 0:
                yield dict(a=a, p=p, e=e, x=x, phases=phases(rng, i), lam=mino_time(rng))

    def check(self, inp):
        a, p, e, x = (float(inp[k]) for k in "apex")
        m = kg()
        q = tuple(inp.get("phases") or (0, 0, 0, 0))
        lam = float(inp.get("lam", 0.4))
        ref = m["constants"]
        out = []

        def run(f):
            with np.errstate(all="ignore"):
                return outcome(lambda: list(f()))

        def cmp(f):
            u, v = run(lambda: f(1.0)), run(lambda: f(-1.0))
            if u[0] != v[0]:
                out.append(f"(a,p,e,x): {str(u)[:80]}, (-a,p,e,-x): {str(v)[:80]}")
            elif u[0] == "exc":
                if u[1].split(":")[0] != v[1].split(":")[0]:
                    out.append(f"(a,p,e,x): {u[1]}, (-a,p,e,-x): {v[1]}")
            else:
                for (n, s), (n2, t) in zip(u[1], v[1], strict=True):
                    s, t = float(s), float(t)
                    if not (close(s, t, 1e-8, 1e-8) or (math.isnan(s) and math.isnan(t)) or s == t):
                        out.append(f"{n}: {s!r} for (a,x), {t!r} for (-a,-x)")
        c = outcome(ref.constants_of_motion, a, p, e, x)
        if c[0] == "exc":
            c = "ok", (.9, 3., 2.)
        E, L, Q = (float(v) for v in c[1])
        cmp(lambda s: constants_values(m["constants"], s * a, p, e, s * x, E, L, Q))
        cmp(lambda s: frequency_values(m["frequencies"], s * a, p, e, s * x, (E, L, Q), 1.1, 1.3))
        cmp(lambda s: orbit_values(m["stable"], s * a, p, e, s * x, q, (0.3, -1.2, 2.1, 0.4), lam, s < 0))
        return out[:8]


def stdargs(a, p, e, x):
    """an unknown function of (a,p,e,x) with the contract f(-a,p,e,-x) = f(a,p,e,x)"""
    n = N(a)
    if n is T.neg(A.n):
        return T.Sym(T.neg(n)), p, e, T.Sym(T.neg(N(x)))
    return a, p, e, x


PROP = C06()
