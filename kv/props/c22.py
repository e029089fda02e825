"""C22 numerical four-velocity"""
from .base import *
from .orbits import *
from .. import geo
from ..vc import opaque

DX = var("dx")
NAMES = ("t", "r", "theta", "phi")
EN_, LZ = var("E"), var("L")
OWN, GIVEN = tuple(var(f"p{i}") for i in range(4)), tuple(var(f"g{i}") for i in range(4))


def poly(tag, deg=4):
    """coordinates that are polynomials of degree four in Mino time, with arbitrary coefficients"""
    return tuple((lambda lam, n=n: sum(var(f"{tag}{n}{k}") * lam**k for k in range(deg + 1))) for n in NAMES)


def dpoly(tag, n, lam):
    return sum(k * var(f"{tag}{n}{k}") * lam ** (k - 1) for k in range(1, 5))


def stub(params, own, deg=4):
    """the orbit's trajectory function (contracts C08-C11): natural units, the orbit's own parameters, one motion per set of phases"""
    def f(a, b, c, d, initial_phases=(0, 0, 0, 0), M=None, distance_units="natural", time_units="natural"):
        ex = T.CTX[0]
        for x, y in zip((a, b, c, d), params):
            ex.oblige("trajectory of the orbit's own parameters", T.sub(N(x), N(y)))
        ex.oblige_true("trajectory in natural units", T.TRUE if (distance_units, time_units) == ("natural", "natural") else T.FALSE)
        for tag, ph in (("own", own), ("given", GIVEN), ("zero", ZERO)):
            if all(N(x) is N(y) for x, y in zip(initial_phases, ph)):
                return poly(tag, deg)
        raise T.Unsupported("trajectory with other phases")
    return f


def make(K, stable, cls, own):
    c = {"Orbit": K.orbit.Orbit, "StableOrbit": K.stable.StableOrbit, "PlungingOrbit": K.plunge.PlungingOrbit}[cls]
    o = object.__new__(c)
    o.__dict__.update(a=A, E=EN_, L=LZ, Q=var("Q"), stable=stable, M=None, mu=None, initial_phases=own, upsilon_r=var("yr"), upsilon_theta=var("yth"),
                      initial_position=(var("x0"), var("x1"), var("x2"), var("x3")), initial_velocity=tuple(var(f"v{i}") for i in range(4)))
    if stable:
        o.__dict__.update(p=P, e=E_, x=X, upsilon_phi=var("yphi"), gamma=var("ga"), omega_r=var("o1"), omega_theta=var("o2"), omega_phi=var("o3"))
    return o


def body(stable, cls):
    def b(K):
        for own_tag, own in (("own", OWN), ("zero", ZERO)):
            o = make(K, stable, cls, own)
            K_own = own_tag
            ways = [("own phases", K_own, lambda: o.numerical_four_velocity(dx=DX)), ("own phases, None given", K_own, lambda: o.numerical_four_velocity(DX, None)),
                    ("given phases", "given", lambda: o.numerical_four_velocity(DX, GIVEN)), ("given by keyword", "given", lambda: o.numerical_four_velocity(initial_phases=GIVEN, dx=DX)),
                    ("zero phases given", "zero", lambda: o.numerical_four_velocity(DX, ZERO)),
                    ("default step", K_own, lambda: o.numerical_four_velocity())]
            for nm, tag, g in ways:
                u = g()
                K.true("four components", T.TRUE if len(u) == 4 else T.FALSE)
                f = poly(tag)
                c = fn("cos", f[2](LAM))
                sigma = f[1](LAM) ** 2 + A**2 * c * c
                for n, x in zip(NAMES, u):
                    K.eq(f"u^{n} is exact for polynomials ({nm}, orbit with {own_tag} phases)", x(LAM) * sigma, dpoly(tag, n, LAM))
    return b


def norm_body(stable, cls):
    """the norm helpers: the metric at the orbit's own position applied to the four-velocity of the same phases
    (on polynomials of degree five, for which the step matters)"""
    def b(K):
        o = make(K, stable, cls, OWN)
        C = type(o)
        old = C.__dict__.get("numerical_four_velocity"), K.spacetime.KerrSpacetime.four_velocity

        def g(u, tag):
            f = poly(tag, 5)
            r, c = f[1](LAM), fn("cos", f[2](LAM))
            m = spec.metric(A, r, c * c, fn("sin", f[2](LAM)) ** 2)
            return sum(S(m[i][j]) * u[i] * u[j] for i in range(4) for j in range(4))
        h = getattr(o, "_numerical_four_velocity_norm", None)
        if h:
            for nm, tag, f, u in (("own phases", "own", lambda: h(DX), lambda: o.numerical_four_velocity(DX)),
                                  ("given phases", "given", lambda: h(DX, GIVEN), lambda: o.numerical_four_velocity(DX, GIVEN)),
                                  ("zero phases given", "zero", lambda: h(DX, ZERO), lambda: o.numerical_four_velocity(DX, ZERO))):
                K.eq(f"numerical norm, {nm}", f()(LAM), g([x(LAM) for x in u()], tag))
        h = getattr(o, "_four_velocity_norm", None)
        if h:
            def four(self, t, r, theta, phi, constants, upsilon_r, upsilon_theta, initial_phases):
                ex = T.CTX[0]
                ex.oblige("four-velocity in the orbit's own spacetime", T.sub(N(self.a), N(A)))
                for x, y in zip((*constants, upsilon_r, upsilon_theta), (EN_, LZ, var("Q"), var("yr"), var("yth"))):
                    ex.oblige("four-velocity with the orbit's own constants", T.sub(N(x), N(y)))
                return tuple((lambda lam, n=n: opaque("u" + n, lam, *[v for v in initial_phases])) for n in NAMES)
            K.spacetime.KerrSpacetime.four_velocity = four
            try:
                for nm, tag, f, ph in (("own phases", "own", lambda: h(), OWN), ("given phases", "given", lambda: h(GIVEN), GIVEN), ("zero phases given", "zero", lambda: h(ZERO), ZERO)):
                    K.eq(f"analytic norm, {nm}", f()(LAM), g([opaque("u" + n, LAM, *ph) for n in NAMES], tag))
            finally:
                K.spacetime.KerrSpacetime.four_velocity = old[1]
        K.ok("norm helpers")
    return b


def sampler(rng):
    d = dict(a=rng.uniform(.1, .9), dx=10 ** rng.uniform(-4, .3), lam=mino_time(rng, 2), E=.9, L=2.0, Q=3.0, p=9.0, e=.3, x=.5)
    for tag in ("own", "given", "zero"):
        for n in NAMES:
            for k in range(6):
                d[f"{tag}{n}{k}"] = rng.uniform(-1, 1) if (n, k) != ("r", 0) else rng.uniform(8, 12)
    for i in range(4):
        d[f"p{i}"], d[f"g{i}"], d[f"x{i}"], d[f"v{i}"] = (rng.uniform(-3, 3) for _ in range(4))
    for n in ("yr", "yth", "yphi", "ga", "o1", "o2", "o3"):
        d[n] = rng.uniform(1, 3)
    return d


class C22(Prop):
    id = "C22"
    explanation = ("numerical_four_velocity is executed for all three classes with the orbit's trajectory replaced by polynomials of degree four with arbitrary "
                   "symbolic coefficients, symbolic step and Mino time: each component times r^2+a^2 cos^2(theta) is proved to be the exact derivative, for own and "
                   "given phases. The norm helpers are proved to be the metric at the orbit's position applied to that velocity.")
    assumptions = ["trajectory functions through their contracts (C08-C11, C16)", "convergence to the analytic velocity for non-polynomial motion follows from exactness up "
                   "to degree four by Taylor's theorem (monitored)"]
    monitor_seconds = 45

    def vcs(self, tier):
        out = []
        for cls, stable, params, name in (("Orbit", True, (A, P, E_, X), "stable_trajectory"), ("StableOrbit", True, (A, P, E_, X), "stable_trajectory"),
                                          ("Orbit", False, (A, EN_, LZ, var("Q")), "plunging_trajectory"),
                                          ("PlungingOrbit", False, (A, EN_, LZ, var("Q")), "plunging_trajectory")):
            def conc(s, stable=stable, cls=cls):
                return dict(kind="poly", cls=cls, stable=stable, values=s)
            kw = dict(concretize=conc, nsamples=4)
            st = {name: stub(params, OWN)}
            pre = [lt(0, A), lt(A, 1), lt(0, DX)]
            out.append(VC(f"stencil, {cls}, {'stable' if stable else 'plunging'}", [f"{cls}.numerical_four_velocity"], body(stable, cls), pre, sampler, stubs=st, **kw))
            out.append(VC(f"norm, {cls}, {'stable' if stable else 'plunging'}", [f"{cls}._numerical_four_velocity_norm", f"{cls}._four_velocity_norm"],
                          norm_body(stable, cls), pre, sampler, stubs={name: stub(params, OWN, 5)}, **kw))
        return out

    def cases(self, rng, tier):
        for c in concrete_cases(rng, 140 if tier == "quick" else 2000):
            if rng.random() < .3:
                cls, stable = rng.choice([("Orbit", True), ("StableOrbit", True), ("Orbit", False), ("PlungingOrbit", False)])
                yield dict(kind="poly", cls=cls, stable=stable, values=sampler(rng))
            yield dict(c, lam=mino_time(rng), h=rng.choice([1e-2, 3e-3, 1e-3]))

    def check(self, inp):
        if inp["kind"] == "poly":
            return poly_check(inp)
        o = Concrete(inp)
        if not o.ok:
            return []
        out = []
        lam = np.array([0.0, float(inp.get("lam", 0.4)), 0.6 / o.M.Yr, -1.3 / o.M.Yth])
        h = float(inp.get("h", 1e-3)) / max(o.M.Yr, o.M.Yth)
        every = lam
        other = (0.4, 1.1, -0.7, 0.2)
        orb = o.orbit(o.q)
        plain = o.orbit(other)
        runs = [("own phases", o.q, lambda dx: orb.numerical_four_velocity(dx)), ("own phases, default step", o.q, lambda dx: orb.numerical_four_velocity()),
                ("given phases", o.q, lambda dx: plain.numerical_four_velocity(dx, tuple(o.q))), ("given phases by keyword", o.q, lambda dx: plain.numerical_four_velocity(initial_phases=tuple(o.q), dx=dx)),
                ("zero phases given", (0, 0, 0, 0), lambda dx: plain.numerical_four_velocity(dx, (0, 0, 0, 0)))]
        if o.stable and inp["a"] >= 0:
            b = object.__new__(kg()["orbit"].Orbit)
            b.__dict__.update(orb.__dict__)
            runs.append(("base class", o.q, lambda dx: b.numerical_four_velocity(dx)))
        for nm, q, g in runs:
            M = o.motion(q)
            o.M = M
            lam = o.safe(every)
            if not len(lam):
                continue
            r, th = M.r_theta(lam)
            rr, tt = M.velocities(lam)
            dt, dp = M.rates(lam)
            sg = r * r + o.sa**2 * np.cos(th) ** 2
            want = (dt / sg, rr / sg, tt / sg, dp / sg * (-1 if o.a < 0 else 1))
            u, half = g(h), g(h / 2)
            for n, x, half_n, w in zip(NAMES, u, half, want):
                got = np.array([float(x(l)) for l in lam])
                if o.a < 0 and n == "phi":
                    w = np.sign(got) * abs(w)
                sc = np.maximum(abs(w), abs(want[0]) * (1e-2 if n != "r" else 1e-1)) + 1e-4
                tol = 0.05 if "default" in nm else 1e-4
                # judged where halving the step changes nothing (the step resolves the motion)
                conv = np.array([abs(float(half_n(l)) - v) for l, v in zip(lam, got)]) < tol / 5 * sc
                e = np.where((np.sin(th) < 0.1) & (n in ("theta", "phi")) | ~conv & ~np.isnan(got), 0, abs(got - w) / sc)
                if not e.max() < tol:
                    k = int(np.nanargmax(np.where(np.isnan(e), np.inf, e)))
                    out.append(f"{nm}: u^{n}({lam[k]}) = {got[k]!r}, velocity is {w[k]!r}")
        for nm, hn in (("_numerical_four_velocity_norm", lambda x: x._numerical_four_velocity_norm(h)), ("_four_velocity_norm", lambda x: x._four_velocity_norm())):
            if hasattr(orb, nm) and not (o.stable and abs(o.args[3]) < 0.12):
                o.M = o.motion(o.q)
                v = [float(hn(orb)(l)) for l in o.safe(every)] if o.stable else [-1.0]
                if v and not max(abs(x + 1) for x in v) < 1e-3:
                    out.append(f"{nm}: {v}, required -1")
        o.M = o.motion(o.q)
        return out or vectorized([("numerical_four_velocity", orb.numerical_four_velocity(1e-2), 1e-8, 1e-6)], o.M, o.sa, inp)


def poly_check(inp):
    """the real methods on an orbit whose trajectory functions are given polynomials"""
    v = {k: float(x) for k, x in inp["values"].items()}
    m = kg()
    name = "stable_trajectory" if inp["stable"] else "plunging_trajectory"
    own, given, zero = tuple(v[f"p{i}"] for i in range(4)), tuple(v[f"g{i}"] for i in range(4)), (0, 0, 0, 0)

    def coeffs(ph, n, deg):
        tag = {own: "own", given: "given", zero: "zero"}[tuple(ph)]
        return [v[f"{tag}{n}{k}"] for k in range(deg + 1)]

    def functions(ph, deg):
        return tuple((lambda lam, c=coeffs(ph, n, deg): sum(x * lam**k for k, x in enumerate(c))) for n in NAMES)
    deg = [4]

    def trajectory(a, b, c, d, initial_phases=zero, *k, **kw):
        return functions(initial_phases, deg[0])
    old = [(mod, getattr(mod, name)) for mod in m.values() if hasattr(mod, name)]
    o = object.__new__(getattr(m[{"Orbit": "orbit", "StableOrbit": "stable", "PlungingOrbit": "plunge"}[inp["cls"]]], inp["cls"]))
    o.__dict__.update(a=v["a"], E=v["E"], L=v["L"], Q=v["Q"], stable=inp["stable"], M=None, mu=None, initial_phases=own, upsilon_r=v["yr"], upsilon_theta=v["yth"])
    if inp["stable"]:
        o.__dict__.update(p=v["p"], e=v["e"], x=v["x"], upsilon_phi=v["yphi"], gamma=v["ga"])
    lam, dx = v["lam"], v["dx"]
    out = []
    for mod, _ in old:
        setattr(mod, name, trajectory)
    try:
        st = m["spacetime"].KerrSpacetime(v["a"])
        for ph, args in ((own, ()), (given, (given,)), (zero, (zero,))):
            for h in (dx, None):
                deg[0] = 4
                u = o.numerical_four_velocity(h, *args) if h else o.numerical_four_velocity(initial_phases=args[0]) if args else o.numerical_four_velocity()
                f = functions(ph, 4)
                sg = f[1](lam) ** 2 + v["a"] ** 2 * math.cos(f[2](lam)) ** 2
                for n, x in zip(NAMES, u):
                    c = coeffs(ph, n, 4)
                    w = sum(k * c[k] * lam ** (k - 1) for k in range(1, 5))
                    sc = sum(abs(y) * (abs(lam) + 2 * (h or 1e-4)) ** k for k, y in enumerate(c))
                    if not abs(float(x(lam)) * sg - w) < 1e-10 * sc + 1e-13 * sc / (h or 1e-7):
                        out.append(f"u^{n} sigma = {float(x(lam)) * sg!r} for coordinates that are polynomials, derivative {w!r} (phases {args or 'own'}, step {h or 'default'})")
                deg[0] = 5
                f = functions(ph, 5)
                x = [g(lam) for g in f]
                hn = getattr(o, "_numerical_four_velocity_norm", None)
                if hn and h:
                    u = [float(g(lam)) for g in o.numerical_four_velocity(h, *args)]
                    got, w = float(hn(h, *args)(lam)), float(st.norm(*x, u))
                    if not abs(got - w) < 1e-8 * (1 + sum(y * y for y in u) * (1 + x[1] ** 2)):
                        out.append(f"norm helper {got!r}, norm of the numerical four-velocity {w!r} (step {h})")
    finally:
        for mod, f in old:
            setattr(mod, name, f)
    return out[:6]


PROP = C22()
