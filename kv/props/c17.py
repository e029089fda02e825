"""C17 validation and classification of initial conditions"""
from .base import *
from .orbits import *
from .. import geo
from ..vc import opaque
from . import c09, c10
from .c18 import root_handler, ASC, horizon, horizon_lemmas, roots_sample, G, H, QV

R0, TH0, T0, PH0 = var("r0"), var("th0"), var("t0"), var("ph0")
UT, UR, UTH, UPH = var("ut"), var("ur"), var("uth"), var("uph")
POS, VEL = (T0, R0, TH0, PH0), (UT, UR, UTH, UPH)
NORM = var("n")
EPS = S(T.const(__import__("fractions").Fraction(1, 10**6)))
MARGIN = S(T.const(__import__("fractions").Fraction(1, 1000)))


def coordinates(rng):
    return dict(t0=rng.uniform(-5, 5), th0=rng.uniform(0.3, 2.8), ph0=rng.uniform(-5, 5), ut=rng.uniform(1.2, 3), ur=rng.uniform(-.4, .4),
                uth=rng.uniform(-.1, .1), uph=rng.uniform(-.1, .1))


# ------------------------------------------------------------------ is_stable
def classify(K, a, consts, want):
    f = K.initial_conditions.is_stable
    for nm, g in (("", lambda: f(a, POS, VEL)), (" with constants", lambda: f(a, POS, VEL, consts)), (" with constants by keyword", lambda: f(a, POS, VEL, constants=consts)),
                  (" by keyword", lambda: f(a=a, initial_position=POS, initial_velocity=VEL))):
        try:
            v = bool(g())
        except ValueError:
            v = "ValueError"
        K.true(f"is_stable{nm} is {want}", T.TRUE if v == want else T.FALSE)


def stable_vcs():
    out = []
    cs = (EN, L, QV)

    def ics(a, pos, vel):
        if pos is not POS or vel is not VEL:
            for x, y in zip((*pos, *vel), (*POS, *VEL)):
                T.CTX[0].oblige("constants from the given initial conditions", T.sub(N(x), N(y)))
        return cs
    pre = [lt(0, A), lt(A, 1), lt(0, EN), lt(EN, 1), lt(0, R0)]
    inside = lambda lo, hi: [le(lo, R0), le(R0, hi)]

    def vc(nm, a, pre, smp, roots, want, region):
        def s(rng):
            d = smp(rng)
            if d is None:
                return None
            lo, hi = region(d)
            if not hi > lo:
                return None
            return dict(d, **coordinates(rng), r0=rng.uniform(lo, hi))

        def conc(d):
            return dict(kind="roots", a=d["a"] if a is A else 0.0, E=d["E"], L=d["L"], Q=d["Q"], r0=d["r0"])
        out.append(VC("is_stable, " + nm, ["is_stable"], lambda K: classify(K, a, cs, want), pre, s, stubs={"constants_from_initial_conditions": ics},
                      poly_roots=root_handler((a, *cs), roots), concretize=conc, nsamples=4))
    for pos in ("low", "high"):
        where = "four real roots, " + ("three outside the horizon" if pos == "low" else "three inside the inner horizon")
        p = pre + ASC + horizon(pos)
        smp = roots_sample(pos)
        order = (R4, R3, R2, R1) if pos == "low" else (R2, R1, R3, R4)
        if pos == "low":
            vc(where + ", r0 between the outer two", A, p + inside(R2, R1), smp, order, True, lambda d: (d["r2"], d["r1"]))
            vc(where + ", r0 between the inner two", A, p + inside(R4, R3) + [lt(R0 + MARGIN, R2)], smp, order, False, lambda d: (max(d["r4"], 1e-9), min(d["r3"], d["r2"] - 2e-3)))
        else:
            vc(where + ", r0 between the outer two", A, p + inside(R2, R1), smp, order, False, lambda d: (d["r2"], d["r1"]))
            vc(where + ", r0 between the inner two", A, p + inside(R4, R3) + [lt(R0 + MARGIN, R2)], smp, order, "ValueError",
               lambda d: (max(d["r4"], 1e-9), min(d["r3"], d["r2"] - 2e-3)))
        vc(where + ", r0 between the two regions", A, p + inside(R3 + MARGIN, R2 - MARGIN), smp, order, "ValueError", lambda d: (d["r3"] + 2e-3, d["r2"] - 2e-3))
        vc(where + ", r0 above all roots", A, p + [lt(R1 + MARGIN, R0)], smp, order, "ValueError", lambda d: (d["r1"] + .01, d["r1"] + 5))
        vc(where + ", r0 below all roots", A, p + [lt(R0, R4 - MARGIN)], smp, order, "ValueError", lambda d: (1e-9, d["r4"] - 2e-3))

    def s0(rng):
        ps = spec.separatrix(0.0, e := rng.uniform(0.05, .8), 1.0, 1e-9)
        p_ = ps + rng.uniform(.2, 8)
        c = spec.constants(0.0, p_, e, x := rng.uniform(.2, 1))
        rr = [float(v) for v in spec.radial_roots(0.0, p_, e, x, c)]
        return dict(a=.5, E=float(c[0]), L=float(c[1]), Q=float(c[2]), r1=rr[0], r2=rr[1], r3=rr[2], r4=-1.0)
    z = S(0)
    p = pre + [lt(0, R3), lt(R3, R2), lt(R2, R1)]
    vc("zero spin, r0 between the outer two of four real roots", z, p + inside(R2, R1), s0, (z, R3, R2, R1), True, lambda d: (d["r2"], d["r1"]))
    vc("zero spin, r0 between the inner two of four real roots", z, p + inside(z, R3) + [lt(R0 + MARGIN, R2)], s0, (z, R3, R2, R1), False, lambda d: (1e-9, min(d["r3"], d["r2"] - 2e-3)))
    vc("zero spin, r0 between the regions", z, p + inside(R3 + MARGIN, R2 - MARGIN), s0, (z, R3, R2, R1), "ValueError", lambda d: (d["r3"] + 2e-3, d["r2"] - 2e-3))

    def pair(rng):
        q = c09.sample(rng, "complex")
        return q and dict(zip(("a", "E", "L", "Q", "r1", "r2", "g", "h"), (*q[0], *q[1], q[2][0].real, abs(q[2][0].imag))))
    up, dn = T.SymC(G.n, H.n), T.SymC(G.n, (-H).n)
    for nm, o in (("pair first", (dn, up, R1, R2)), ("pair last", (R1, R2, dn, up))):
        vc("two complex roots, " + nm, A, pre + [lt(R1, R2), lt(0, H)] + inside(R1, R2), pair, [T.SymC.of(v) for v in o], False, lambda d: (max(d["r1"], 1e-9), d["r2"]))
    g2, h2 = var("g2"), var("h2")
    vc("no real roots", A, pre + [lt(0, H), lt(0, h2)], lambda rng: dict(a=.5, E=.9, L=1.0, Q=1.0, g=1.0, h=rng.uniform(.1, 1), g2=2.0, h2=rng.uniform(.1, 1)),
       [up, dn, T.SymC(g2.n, h2.n), T.SymC(g2.n, (-h2).n)], "ValueError", lambda d: (1, 5))
    return out


# ------------------------------------------------------------------ Orbit.__init__
def orbit_vc(nm, a, pre, smp, verdict, want):
    """verdict: what is_stable answers (True, False or 'ValueError'); want: the attribute stable of the orbit, or 'ValueError'"""
    cs = (EN, L, QV)

    def ics(a_, pos, vel, **k):
        for x, y in zip((a_, *pos, *vel), (a, *POS, *VEL)):
            T.CTX[0].oblige("constants from the given initial conditions", T.sub(N(x), N(y)))
        return cs

    def cls(*k, **kw):
        if verdict == "ValueError":
            raise ValueError("Not a physical orbit")
        return verdict
    op = lambda name, n: (lambda *k, **kw: tuple(opaque(name + str(i), *[v for v in k if isinstance(v, T.Sym)]) for i in range(n)))
    stubs = {"constants_from_initial_conditions": ics, "is_stable": cls, "plunging_mino_frequencies": op("pm", 2), "mino_frequencies": op("mf", 4),
             "fundamental_frequencies": op("ff", 3), "stable_orbit_initial_phases": lambda *k, **kw: (T0, var("q1"), var("q2"), PH0),
             "plunging_orbit_initial_phases": lambda *k, **kw: (T0, var("q1"), var("q2"), PH0), "apex_from_constants": lambda a_, *k: (a_, var("p"), var("e"), var("x"))}

    def body(K):
        C = K.spacetime.KerrSpacetime
        old = C.norm

        def norm(self, t, r, theta, phi, v):
            for x, y in zip((self.a, t, r, theta, phi, *v), (a, *POS, *VEL)):
                T.CTX[0].oblige("norm of the given velocity at the given position", T.sub(N(x), N(y)))
            return NORM
        C.norm = norm
        try:
            for how, f in (("", lambda: K.orbit.Orbit(a, POS, VEL)), (" with masses", lambda: K.orbit.Orbit(a, POS, VEL, var("M"), var("mu"))),
                           (" by keyword", lambda: K.orbit.Orbit(a=a, initial_position=POS, initial_velocity=VEL))):
                try:
                    o = f()
                    v = bool(o.stable)
                except ValueError:
                    v = "ValueError"
                K.true(f"Orbit{how}: {want}", T.TRUE if v == want else T.FALSE)
                if v in (True, False):
                    for n, x, y in zip("ELQ", (o.E, o.L, o.Q), cs):
                        K.eq(n + how, x, y)
        finally:
            C.norm = old

    def s(rng):
        d = dict(a=rng.uniform(.1, .9), E=rng.uniform(.5, .99), L=rng.uniform(1, 4), Q=rng.uniform(.1, 9), r0=rng.uniform(3, 20), q1=rng.uniform(0, 6), q2=rng.uniform(0, 6),
                 p=9.0, e=.3, x=.5, M=1e6, mu=10.0, **coordinates(rng))
        return dict(d, **smp(rng))

    def conc(d):
        return dict(kind="norm", a=d["a"] if a is A else 0.0, n=d["n"], E=d["E"], verdict=str(verdict))
    return VC("Orbit, " + nm, ["Orbit.__init__"], body, [lt(0, A), lt(A, 1), lt(0, R0)] + pre, s, stubs=stubs, concretize=conc, nsamples=4)


def orbit_vcs():
    dev = NORM + 1
    ok = [le(-EPS, dev), le(dev, EPS)]
    s_ok = lambda rng: dict(n=-1 + rng.uniform(-9e-7, 9e-7))
    bound = [lt(-1, EN), lt(EN, 1)]
    z = S(0)
    out = []
    for a, nm in ((A, ""), (z, ", zero spin")):
        for v in (True, False):
            out += [orbit_vc(f"spacelike or null velocity{nm}, {v}", a, [le(0, NORM)], lambda rng: dict(n=rng.uniform(0, 2)), v, "ValueError"),
                    orbit_vc(f"norm below -1{nm}, {v}", a, [lt(EPS, -dev)], lambda rng: dict(n=-1 - rng.choice([1.5e-6, 1e-3, rng.uniform(0, 2) + 1e-5])), v, "ValueError"),
                    orbit_vc(f"norm above -1{nm}, {v}", a, [lt(EPS, dev), lt(NORM, 0)], lambda rng: dict(n=-1 + rng.choice([1.5e-6, 1e-3, rng.uniform(1e-5, .99)])), v, "ValueError")]
        out.append(orbit_vc(f"not physical{nm}", a, ok + bound, s_ok, "ValueError", "ValueError"))
        out.append(orbit_vc(f"stable{nm}", a, ok + bound, s_ok, True, True))
        out.append(orbit_vc(f"plunging{nm}", a, ok + bound, s_ok, False, False if a is A else "ValueError"))
    out.append(orbit_vc("unbound", A, ok + [le(1, EN)], lambda rng: dict(s_ok(rng), E=rng.uniform(1, 3)), False, "ValueError"))
    out.append(orbit_vc("unbound, negative energy", A, ok + [le(EN, -1)], lambda rng: dict(s_ok(rng), E=-rng.uniform(1, 3)), False, "ValueError"))
    return out


# ------------------------------------------------------------------ concrete
def timelike(a, r, th, v):
    """u^t of the future-directed unit velocity with these spatial components; None if there is none"""
    g = spec.metric(a, r, math.cos(th) ** 2, math.sin(th) ** 2)
    g = np.array([[float(x) for x in row] for row in g])
    A_, B, C = g[0, 0], g[0, 3] * v[2], sum(g[i, i] * v[i - 1] ** 2 for i in (1, 2, 3)) + 1
    if g[0, 0] >= -1e-9:
        return None
    d = B * B - A_ * C
    return (-B - math.sqrt(d)) / A_ if d > 0 else None


def norm_of(a, r, th, u):
    g = spec.metric(a, r, math.cos(th) ** 2, math.sin(th) ** 2)
    return sum(float(g[i][j]) * u[i] * u[j] for i in range(4) for j in range(4))


def consts_of(a, r, th, u):
    g = spec.metric(a, r, math.cos(th) ** 2, math.sin(th) ** 2)
    E = -sum(float(g[0][j]) * u[j] for j in range(4))
    L_ = sum(float(g[3][j]) * u[j] for j in range(4))
    pth = float(g[2][2]) * u[2]
    c2, s2 = math.cos(th) ** 2, math.sin(th) ** 2
    return E, L_, pth**2 + c2 * (a * a * (1 - E * E) + L_ * L_ / s2)


def expected(a, E, L_, Q, r0, margin=1e-3):
    """'stable', 'plunge', 'error' from 30-digit roots; None near an edge"""
    if abs(abs(E) - 1) < 1e-6:
        return None
    re, im = geo.roots4(a, E, L_, Q)
    rm = 1 - math.sqrt(1 - a * a)
    if len(re) == 0:
        return "error"
    if im and min(abs(z.imag) for z in im) < 1e-3 or len(re) > 1 and min(np.diff(re)) < 1e-3:
        return None
    if len(re) == 2:
        return "plunge" if E * E < 1 else "unbound"
    lo, lo2, hi2, hi = re
    if min(abs(lo2 - rm), abs(hi2 - rm)) < 1e-7 and a:
        return None
    if E * E > 1:
        return None
    near = lambda x: abs(r0 - x) < margin
    if hi2 > rm:
        if hi2 - 1e-5 <= r0 <= hi + 1e-5:
            return "stable" if r0 > lo2 + margin else None
        if lo - 1e-5 <= r0 <= lo2 + 1e-5:
            return "plunge" if r0 < hi2 - margin else None
    elif hi2 - 1e-5 <= r0 <= hi + 1e-5:
        return "plunge"
    if near(lo2) or near(hi2) or near(hi) or near(lo):
        return None
    return "error"


class C17(Prop):
    id = "C17"
    explanation = ("is_stable is executed on symbolic constants and r0 for every configuration of the roots (numpy's root finder through its contract, the "
                   "polynomial proved to be the radial potential) and every region of r0; Orbit.__init__ is executed with symbolic norm, constants and "
                   "every verdict of is_stable: on every path the outcome is the required one.")
    assumptions = ["numpy Polynomial.roots returns all roots of the polynomial", "norm, constants_from_initial_conditions and the phases through their contracts "
                   "(C15, C13, C14)", "positions within 1e-3 of a turning point outside the allowed region are left to the code's tolerance",
                   "neither horizon is a turning point (both lie in one allowed region: proved)"]
    monitor_seconds = 45

    def vcs(self, tier):
        return stable_vcs() + horizon_lemmas(["is_stable"]) + orbit_vcs()

    def cases(self, rng, tier):
        for i in range(700 if tier == "quick" else 8000):
            k = i % 7
            if k in (0, 1, 2):
                # any velocity outside the ergosphere
                a = rng.choice([0.0, edge(rng, 0.01, 0.999), edge(rng, 0.01, 0.999)])
                r0 = 2.05 + 10 ** rng.uniform(-1, 1.5)
                if k:
                    r0 = rng.uniform(5, 40)
                th = rng.choice([math.pi / 2, edge(rng, 0.05, math.pi - 0.05, 1e-2), edge(rng, 0.05, math.pi - 0.05, 1e-2)])
                s = 10 ** rng.uniform(-2.5, -0.2 if k == 0 else -1)
                v = [s * rng.gauss(0, 1) * rng.choice([0, 1, 1]), s * rng.gauss(0, 1) / r0, (rng.gauss(0, 1) * s + rng.choice([0, 1, -1] if k == 0 else [1, -1]) * r0**-0.5) / r0]
                ut = timelike(a, r0, th, v)
                if ut is None:
                    continue
                f = rng.choice([1, 1, 1, 1, 1, 1, 1, 1, 1 + 2e-6, 1 - 2e-6, 1 + 1e-7, 1.01, 0.97])
                yield dict(kind="ics", a=a, pos=[rng.uniform(-3, 3), r0, th, rng.uniform(-3, 3)], vel=[ut * f, *[x * f for x in v]])
            elif k == 3:
                a = rng.choice([0.0, rng.uniform(0.05, 0.99)])
                r0, th = rng.uniform(2.1, 20), rng.uniform(0.2, 2.9)
                # spacelike, or almost null
                v = [rng.gauss(0, 1), rng.gauss(0, 1) / r0, rng.gauss(0, 1) / r0]
                ut = timelike(a, r0, th, v)
                if ut:
                    yield dict(kind="ics", a=a, pos=[0.0, r0, th, 0.0], vel=[ut * rng.choice([0.9, 0.5, 0.0, 0.99]), *v])
            else:
                # constants of an orbit with r0 anywhere
                q = c09.sample(rng, ("low", "high", "complex")[k - 4])
                if q is None:
                    continue
                a, E, Lz, Q = q[0]
                if k == 4 and rng.random() < 0.4:
                    ps = spec.separatrix(0.0, e := rng.uniform(0.02, 0.9), 1.0, 1e-10)
                    c = spec.constants(0.0, ps + rng.uniform(0.05, 9), e, rng.choice([-1, 1]) * rng.uniform(0.1, 1))
                    a, (E, Lz, Q) = 0.0, (float(x) for x in c)
                re = geo.roots4(a, E, Lz, Q)[0]
                lo, hi = max(1e-3, re[0] - 0.5), re[-1] + 3
                j = rng.randrange(len(re) - 1)
                yield dict(kind="roots", a=a, E=E, L=Lz, Q=Q, r0=rng.choice([rng.uniform(lo, hi), edge(rng, re[j], re[j + 1], 1e-3), edge(rng, re[j], re[j + 1], 1e-3)]))

    def check(self, inp):
        m = kg()
        kind = inp["kind"]
        out = []
        a = float(inp["a"])
        if kind == "roots":
            E, Lz, Q, r0 = (float(inp[k]) for k in ("E", "L", "Q", "r0"))
            w = expected(a, E, Lz, Q, r0)
            if w is None or w == "unbound":
                return []
            f = m["initial_conditions"].is_stable
            want = {"stable": True, "plunge": False, "error": "ValueError"}[w]
            for nm, g in (("", lambda: f(a, (0.1, r0, 1.2, 0.3), (1.0, 0.0, 0.0, 0.0), (E, Lz, Q))),
                          (" by keyword", lambda: f(a, (0.1, r0, 1.2, 0.3), (1.0, 0.0, 0.0, 0.0), constants=(E, Lz, Q)))):
                s, v = outcome(g)
                v = bool(v) if s == "ok" else v.split(":")[0]
                if v != want:
                    out.append(f"is_stable{nm}: {v}, required {want}")
            return out
        if kind == "norm":
            # a velocity with this norm, of the class asked for if there is one
            n, v = float(inp["n"]), inp["verdict"]
            for r0, vel in ((8.0, [0.0, 0.01, 0.045]), (12.0, [0.0, 0.005, 0.024]), (6.5, [-0.3, 0.001, 0.01]), (20.0, [1.0, 0.0, 0.01])):
                ut = timelike(a, r0, 1.4, vel)
                if n < 0:
                    u = [x * math.sqrt(-n) for x in (ut, *vel)]
                else:
                    g = float(spec.metric(a, r0, math.cos(1.4) ** 2, math.sin(1.4) ** 2)[1][1])
                    u = [0.0, math.sqrt(n / g), 0.0, 0.0]
                r = self.check(dict(kind="ics", a=a, pos=[0.0, r0, 1.4, 0.0], vel=u))
                if r:
                    return r
            return []
        pos, vel = [float(v) for v in inp["pos"]], [float(v) for v in inp["vel"]]
        n = norm_of(a, pos[1], pos[2], vel)
        if n >= 1e-9:
            w = "error"
        elif abs(n + 1) > 1.05e-6 and n < -1e-9:
            w = "error"
        elif abs(n + 1) < 0.95e-6:
            c = consts_of(a, pos[1], pos[2], vel)
            w = expected(a, *c, pos[1])
            if w == "unbound" or w == "plunge" and a == 0:
                w = "error"
        else:
            w = None
        if w is None:
            return []
        for nm, f in (("Orbit", lambda: m["orbit"].Orbit(a, tuple(pos), tuple(vel))), ("Orbit with lists", lambda: m["orbit"].Orbit(a, list(pos), list(vel), 1e6, 10))):
            s, v = outcome(f)
            got = ("stable" if v.stable else "plunge") if s == "ok" else "error" if v.startswith("ValueError") else v
            if got == "ok" or got != w:
                if w == "stable" and got == "error" and near_circular(a, c):
                    continue
                out.append(f"{nm}: {got if s == 'ok' else v}, required {w}")
            elif s == "ok" and w == "stable" and not isinstance(v.stable, (bool, np.bool_)):
                out.append(f"{nm}: stable is {v.stable!r}")
            elif s == "ok":
                for k, x, y in zip("ELQ", (v.E, v.L, v.Q), c):
                    if not close(x, y, 1e-9, 1e-9):
                        out.append(f"{nm}: {k} = {x!r}, required {y!r}")
                if w == "plunge" and not (v.upsilon_r > 0 and v.upsilon_theta > 0):
                    out.append(f"{nm}: plunging frequencies {v.upsilon_r}, {v.upsilon_theta}")
        if w == "stable" or w == "plunge":
            got = outcome(m["initial_conditions"].is_stable, a, tuple(pos), tuple(vel))
            if got[0] != "ok" or bool(got[1]) != (w == "stable"):
                out.append(f"is_stable: {got}, required {w}")
        return out


def near_circular(a, c):
    re = geo.roots4(a, *c)[0]
    return len(re) == 4 and re[3] - re[2] < 0.02


PROP = C17()
