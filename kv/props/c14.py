"""C14 an orbit built from initial conditions passes through them"""
from .base import *
from .orbits import *
from ..vc import opaque
from . import orbits, c03
from ..numeval import Evaluator

T0, R0, TH0, PH0 = var("t0"), var("r0"), var("th0"), var("ph0")
POS = (T0, R0, TH0, PH0)
UT, UR, UTH, UPH = var("ut"), var("ur"), var("uth"), var("uph")
TOL = S(0.0001)
CT, ST = fn("cos", TH0), fn("sin", TH0)


class norm_is:
    """while the orbit is built the norm of the initial velocity is the given value (contract C15)"""

    def __init__(self, K, v=-1):
        self.cls, self.v = K.spacetime.KerrSpacetime, v

    def __enter__(self):
        self.old = self.cls.norm
        self.cls.norm = lambda *k, **kw: S(self.v)

    def __exit__(self, *e):
        self.cls.norm = self.old


def spec_velocity(kd):
    """the velocity with the orbit's constants at (r0, theta0): radial and polar components up to their signs"""
    a, E, Lc, Q = kd.consts
    c2 = CT * CT
    sg = R0**2 + a**2 * c2
    return spec.dt(a, E, Lc, R0, c2) / sg, sqrt(spec.R(a, E, Lc, Q, R0)) / sg, sqrt(spec.Z(a, E, Lc, Q, CT)) / (sg * ST), spec.dphi(a, E, Lc, R0, c2) / sg


def closed_phases(kd, sr, sth, rpos, thpos):
    """the phases required at (r0, theta0): contract of the phase functions, proved of their bodies by the 'phases' VCs"""
    a, E, Lc, Q = kd.consts
    rr = kd.roots
    if rpos != "inside":
        qr = S(0) if rpos == "min" else PI
    else:
        if isinstance(rr[2], T.SymC):
            Ac, Bc = c10.CA, c10.CB
            k2 = ((R2 - R1) ** 2 - (Ac - Bc) ** 2) / (4 * Ac * Bc)
            qr = PI * fn("F", PI / 2 - fn("arcsin", amplitude(kd)), k2) / (2 * fn("K", k2))
        else:
            r1, r2, r3, r4 = rr
            k2 = (r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4))
            qr = PI * fn("F", fn("arcsin", sqrt(amplitude(kd))), k2) / fn("K", k2)
        if sr < 0:
            qr = 2 * PI - qr
    if thpos != "inside":
        qth = S(0) if thpos == "min" else PI
    else:
        bt = a**2 * (1 - E**2)
        if kd.stable:
            k2 = S(0) if a.n is T.ZERO else kd.zmax / (1 + 1 / (bt / Lc**2 * (1 - kd.zmax)))
        else:
            k2 = bt * kd.zmax / (bt + Lc**2 / (1 - kd.zmax))
        half = PI * fn("F", fn("arcsin", CT / sqrt(kd.zmax)), k2) / (2 * fn("K", k2))
        qth = PI / 2 - half if sth > 0 else 3 * PI / 2 + half
    return T0, qr, qth, PH0


def amplitude(kd):
    """sin^2 (real roots) or cos (complex roots) of the radial amplitude at r0"""
    rr = kd.roots
    if isinstance(rr[2], T.SymC):
        Ac, Bc = c10.CA, c10.CB
        return (Bc * (R2 - R0) - Ac * (R0 - R1)) / (Bc * (R2 - R0) + Ac * (R0 - R1))
    r1, r2, r3, r4 = rr
    return (r1 - r3) * (R0 - r2) / ((r1 - r2) * (R0 - r3))


def half_facts(kd, sr, sth, rpos, thpos):
    """0 < F(arcsin y) < K for 0<y<1 and |F(arcsin y)| < K for |y|<1: the phase lies on the half of the oscillation with the sign of the velocity"""
    q = closed_phases(kd, sr, sth, rpos, thpos)
    out = []
    if rpos == thpos == "inside":
        # the initial position is in the allowed region (C02, C18)
        out += [le(0, spec.R(*kd.consts, R0)), le(0, spec.Z(*kd.consts, CT)), lt(0, R0**2 + kd.consts[0] ** 2 * CT**2)]
    if rpos == "inside":
        out.append(lt(0, sr * fn("sin", q[1])))
    if thpos == "inside":
        out.append(lt(0, sth * fn("sin", q[2])))
    return out


def positions(kd, rpos, thpos):
    thmin = fn("arccos", sqrt(kd.zmax))
    r0 = {"inside": R0, "min": kd.rmin, "max": kd.rmax}[rpos]
    th0 = {"inside": TH0, "min": thmin, "max": PI - thmin}[thpos]
    return (T0, r0, th0, PH0), (UT, UR if rpos == "inside" else S(0), UTH if thpos == "inside" else S(0), UPH)


def body(kd, sr, sth, rpos="inside", thpos="inside"):
    """rpos, thpos: inside (away from the turning points by more than the tolerance) or exactly at one of them"""
    a, E, Lc, Q = kd.consts
    pos, vel = positions(kd, rpos, thpos)
    r0, th0 = pos[1:3]

    def b(K):
        with norm_is(K):
            o = K.orbit.Orbit(a, pos, vel)
        K.true("classified", T.TRUE if o.stable is kd.stable else T.FALSE)
        for n, x, y in zip("aELQ", (o.a, o.E, o.L, o.Q), kd.consts):
            K.eq(n, x, y)
        z = [f(S(0)) for f in o.trajectory()]
        K.eq("t(0) = t0", z[0], T0)
        K.eq("r(0) = r0", z[1], r0)
        K.eq("cos theta(0) = cos theta0", fn("cos", z[2]), fn("cos", th0))
        K.eq("phi(0) = phi0", z[3], PH0)
        for i, (n, x) in enumerate(zip(("t", "r", "theta", "phi"), o.initial_position)):
            K.eq(f"initial_position {n}", x, pos[i])
        for i, (n, x) in enumerate(zip(("t", "r", "theta", "phi"), o.initial_velocity)):
            K.eq(f"initial_velocity {n}", x, vel[i])
        if rpos == thpos == "inside":
            u = [f(S(0)) for f in o.four_velocity()]
            w = spec_velocity(kd)
            K.eq("u^t(0)", u[0], w[0])
            K.eq("u^r(0)^2", u[1] ** 2, w[1] ** 2)
            K.true("u^r(0) has the sign of u^r", le(0, u[1] * sr))
            K.eq("u^theta(0)", u[2], sth * w[2])
            K.eq("u^phi(0)", u[3], w[3])
    return b


def phases_body(kd, sr, sth, rpos, thpos):
    """the phase functions called directly, with and without what they can be given, return the closed form"""
    a, E, Lc, Q = kd.consts
    pos, vel = positions(kd, rpos, thpos)

    def b(K):
        I = K.initial_conditions
        f = I.stable_orbit_initial_phases if kd.stable else I.plunging_orbit_initial_phases
        c = kd.consts[1:]
        want = closed_phases(kd, sr, sth, rpos, thpos)
        if rpos == "inside":
            y = amplitude(kd)
            if isinstance(kd.roots[2], T.SymC):
                K.true("radial amplitude is between 0 and pi", lt(y * y, 1))
            else:
                K.true("radial amplitude is above 0", lt(0, y))
                K.true("radial amplitude is below pi/2", lt(y, 1))
        ways = [("", lambda: f(a, pos, vel)), (" with constants", lambda: f(a, pos, vel, c)), (" with constants by keyword", lambda: f(a, pos, vel, constants=c)),
                (" with radial roots", lambda: f(a, pos, vel, radial_roots=kd.roots)), (" with both", lambda: f(a, pos, vel, c, kd.roots))]
        if kd.stable:
            # frequencies passed in are used as given: the closed form contains them only through pi/K (C07)
            yr, yth = K.frequencies._r_frequency_from_constants(c, kd.roots), None
            ways += [(" with radial frequency", lambda: f(a, pos, vel, upsilon_r=yr))]
        for nm, g in ways:
            for n, x, y, at in zip(("qt", "qr", "qtheta", "qphi"), g(), want, ("inside", rpos, thpos, "inside")):
                if at == "inside":
                    K.eq(n + nm, x, y)
                else:
                    # at a turning point the phase is fixed up to 2 pi
                    k = [e(N(x - y)) for e in T.CTX[0].live[:1]]
                    K.eq(n + nm, x, y + 2 * PI * (round(float(k[0]) / (2 * math.pi)) if k and k[0] is not None else 0))
    return b


def stubs(kd, phases=None):
    a, E, Lc, Q = kd.consts

    def const(sp, p, v, *k, **kw):
        T.CTX[0].oblige("constants are derived at the orbit's spin", T.sub(N(sp), N(a)))
        return kd.consts[1:]

    def stable(*k, **kw):
        # initial_conditions.is_stable(a, position, velocity) or constants.is_stable(a, p, e, x)
        return kd.stable if any(isinstance(v, (tuple, list)) for v in list(k) + list(kw.values())) else True

    def apex(sp, En, Lz, Qc):
        for n, x, y in zip("aELQ", (sp, En, Lz, Qc), kd.consts):
            T.CTX[0].oblige(f"apex_from_constants is asked for the orbit's {n}", T.sub(N(x), N(y)))
        return kd.args
    out = {"constants_from_initial_conditions": const, "is_stable": stable, "apex_from_constants": apex}
    if phases:
        pos, vel = positions(kd, *phases[2:])

        def ph(sp, p, v, constants=None, radial_roots=None, upsilon_r=None, upsilon_theta=None, tol=1e-4):
            ob = T.CTX[0].oblige
            ob("phases are computed at the orbit's spin", T.sub(N(sp), N(a)))
            for nm, given, want in (("position", p, pos), ("velocity", v, vel), ("constants", constants, kd.consts[1:]), ("radial roots", radial_roots, kd.roots)):
                if given is None:
                    continue
                for x, y in zip(given, want):
                    if isinstance(y, T.SymC):
                        continue
                    ob(f"phases are computed of the initial {nm}", T.sub(N(x), N(y)))
            if upsilon_r is not None or upsilon_theta is not None:
                raise T.Unsupported("frequencies passed to the phase function")
            return closed_phases(kd, *phases)
        out["stable_orbit_initial_phases" if kd.stable else "plunging_orbit_initial_phases"] = ph
    return out


class C14(Prop):
    id = "C14"
    explanation = ("Orbit(a, position, velocity) with the phase functions, frequencies and trajectory functions it uses is executed on a symbolic "
                   "position and velocity of a symbolic orbit of each kind (constants, roots and parameters through their contracts); the trajectory at Mino "
                   "time zero is proved to be the position, the four-velocity there the velocity, and the phases to lie on the half of the oscillation "
                   "given by the signs of u^r and u^theta.")
    assumptions = ["constants, roots, parameters and classification through their contracts (C01-C03, C13, C17, C18)",
                   "0 < F(arcsin y, m) < K(m) for 0<y<1 and |F(arcsin y, m)| < K(m) for |y|<1 (places the phase)",
                   "turning points: exactly at them or farther than the code's tolerance 1e-4"]
    monitor_seconds = 50

    def vcs(self, tier):
        ks = []
        for a, sx, eq in [(1, 1, False), (1, -1, False), (0, 1, False), (0, -1, False), (1, 1, True), (1, -1, True), (0, 1, True)]:
            kd = stable_kind(a, 1, sx, eq)
            # Schwarzschild: p and e are tied to the outer roots, which the code uses
            if not a:
                kd = c03.linked(kd, eq)
                kd.rmin, kd.rmax = kd.roots[1], kd.roots[0]
            else:
                kd.poly = c03.roots(kd, S(0) if eq else 1 - X**2)
            kd.eq = eq
            ks.append(kd)
        for kd in [real_kind("low", 1), real_kind("low", -1), real_kind("high", 1), complex_kind()]:
            kd.eq = False
            ks.append(kd)
        out = []
        for kd in ks:
            inside = "min" if kd.eq else "inside"
            cases = [(sr, sth, "inside", inside) for sr in (1, -1) for sth in ((1,) if kd.eq else (1, -1))]
            cases += [(1, 1, rp, inside) for rp in ("min", "max")]
            if not kd.eq:
                cases += [(1, 1, "inside", tp) for tp in ("min", "max")]
            for c in cases:
                out += self.pair(kd, *c)
        return out

    def derive(self, kd, sr=None, sth=None):
        """the radial and polar velocity that belong to the other quantities (so that samples can be replayed)"""
        ur, uth = spec_velocity(kd)[1:3]

        def f(s):
            try:
                e = Evaluator(s)
                v, w = e(N(ur)), e(N(uth))
                return dict(s, ur=float(v) * (sr or 1), uth=float(w) * (sth or 1)) if v and w else None
            except Exception:
                return None
        return f

    def sampler(self, kd, sr=None, sth=None):
        derive = self.derive(kd, sr, sth)

        def f(rng):
            s = kd.sampler(rng)
            if not s:
                return None
            num = {n: s.get(n) for n in ("r1", "r2")}
            lo, hi = min(num.values()), max(num.values())
            if kd.stable and kd.args[0].n is T.ZERO:
                lo, hi = s["p"] / (1 + s["e"]), s["p"] / (1 - s["e"])
            zm = s["zm"] if "zm" in s else s["z1"] ** 2 if "z1" in s else 1 - s["x"] ** 2
            c = math.sqrt(zm) * rng.uniform(-.97, .97)
            s = dict(s, r0=lo + (hi - lo) * rng.uniform(.03, .97), th0=math.acos(c), t0=rng.uniform(-5, 5), ph0=rng.uniform(-5, 5), ut=rng.uniform(1, 2),
                     ur=rng.uniform(.1, 1) * (sr or rng.choice([1, -1])), uth=rng.uniform(.1, 1) * (sth or rng.choice([1, -1])), uph=rng.uniform(-1, 1))
            return derive(s) or s
        return f

    def pair(self, kd, sr, sth, rpos, thpos):
        thmin = fn("arccos", sqrt(kd.zmax))
        pre = []
        if rpos == "inside":
            pre += [le(TOL, R0 - kd.rmin), le(TOL, kd.rmax - R0), lt(0, sr * UR)]
        if thpos == "inside":
            pre += [lt(CT * CT, kd.zmax), lt(0, ST), lt(0, UTH * sth), le(TOL, TH0 - thmin), le(TOL, PI - thmin - TH0)]

        if isinstance(kd.roots[2], T.SymC):
            eta = S(kd.roots[2].im)
            pre += [lt(0, eta), T.bnot(T.rel(eta.n, "=="))]
        if rpos != "inside":
            pre.append(le(TOL, kd.rmax - kd.rmin))
        if thpos != "inside" and not kd.eq:
            pre.append(le(TOL, PI - 2 * thmin))

        def conc(s, kd=kd, old=kd.conc):
            d = old(s)
            d.update(r0=s["r0"], th0=s["th0"], sr=sr, sth=sth, rpos=rpos, thpos=thpos, t0=s["t0"], ph0=s["ph0"])
            return d
        old, kd.conc = kd.conc, conc
        nm = f"r0 {rpos if rpos != 'inside' else 'outwards' if sr > 0 else 'inwards'}, theta0 {thpos if thpos != 'inside' else 'growing' if sth > 0 else 'falling'}"
        s = self.sampler(kd, sr, sth)
        f = "stable_orbit_initial_phases" if kd.stable else "plunging_orbit_initial_phases"
        v = [kd.vc("phases, " + nm, [f], phases_body(kd, sr, sth, rpos, thpos), sampler=s, stubs=stubs(kd), pre=pre, min_obligations=12),
             kd.vc("orbit, " + nm, ["Orbit.__init__", "Orbit.trajectory", "Orbit.four_velocity"], body(kd, sr, sth, rpos, thpos), sampler=s,
                   stubs=stubs(kd, (sr, sth, rpos, thpos)), pre=pre + half_facts(kd, sr, sth, rpos, thpos), min_obligations=12)]
        kd.conc = old
        for vc in v:
            vc.derive = self.derive(kd, sr, sth)
        return v

    def cases(self, rng, tier):
        for i, c in enumerate(concrete_cases(rng, 260 if tier == "quick" else 4000)):
            if c["kind"] == "stable" and (c["e"] < .02 or c["a"] < 0):
                continue
            k = rng.randrange(8)
            c.update(u=rng.random(), v=rng.random(), sr=rng.choice([1, -1]), sth=rng.choice([1, -1]), t0=rng.uniform(-9, 9), ph0=rng.uniform(-9, 9),
                     rpos="min" if k == 5 else "max" if k == 6 else "inside", thpos="min" if k == 7 else "max" if k == 3 else "inside")
            yield c

    def check(self, inp):
        o = Concrete(inp)
        if not o.ok:
            return []
        m = kg()
        M = o.M
        a = o.sa
        E, Lz, Q = o.consts
        lo, hi = min(M.ra, M.rb), max(M.ra, M.rb)
        zm = max(0.0, float(M.zm))
        thm = math.acos(math.sqrt(zm))
        rpos, thpos = inp.get("rpos", "inside"), inp.get("thpos", "inside")
        eq = thm > math.pi / 2 - 1e-3
        if eq:
            thpos = "inside"
        if "r0" in inp:
            r0, th0 = float(inp["r0"]), float(inp["th0"])
        else:
            r0, th0 = lo + (hi - lo) * inp["u"], thm + (math.pi - 2 * thm) * inp["v"]
        if rpos == "min":
            r0 = M.ra
        elif rpos == "max":
            r0 = M.rb
        elif min(r0 - lo, hi - r0) < 3e-4:
            return []
        if eq:
            th0 = math.pi / 2
            if Q > 1e-9:
                return []
        elif thpos == "min":
            th0 = thm
        elif thpos == "max":
            th0 = math.pi - thm
        elif min(th0 - thm, math.pi - thm - th0) < 3e-4:
            return []
        d = math.sqrt(1 - a * a)
        if min(abs(r0 - 1 - d), abs(r0 - 1 + d)) < .02 * min(1, d) or r0 < .02:
            return []
        c2, s2 = math.cos(th0) ** 2, math.sin(th0) ** 2
        sg = r0 * r0 + a * a * c2
        R, Z = float(spec.R(a, E, Lz, Q, r0)), float(spec.Z(a, E, Lz, Q, math.cos(th0)))
        ur = 0.0 if rpos != "inside" else math.sqrt(max(R, 0)) / sg * inp.get("sr", 1)
        uth = 0.0 if eq or thpos != "inside" else math.sqrt(max(Z, 0) / s2) / sg * inp.get("sth", 1)
        pos = (float(inp.get("t0", 0)), r0, th0, float(inp.get("ph0", 0)))
        vel = (float(spec.dt(a, E, Lz, r0, c2)) / sg, ur, uth, float(spec.dphi(a, E, Lz, r0, c2)) / sg)
        g = spec.metric(a, r0, c2, s2)
        n = sum(g[i][j] * vel[i] * vel[j] for i in range(4) for j in range(4))
        nsc = sum(abs(g[i][j] * vel[i] * vel[j]) for i in range(4) for j in range(4))
        if abs(n + 1) > 5e-7 or nsc > 1e5:
            return []
        if not o.stable and (Lz == 0 and len(M_roots(o)) == 4):
            return []
        try:
            b = m["orbit"].Orbit(a, pos, vel)
        except ValueError as ex:
            return [f"Orbit raises {ex} for a supported initial position and velocity"]
        out = []
        if b.stable != o.stable:
            return [f"orbit classified stable={b.stable}, required {o.stable}"]
        # a root error eps*cond shifts the phase near a turning point: compare in quantities that are smooth there
        sens = nsc * 1e-10 + 1e-6
        for nm, f in (("trajectory()", b.trajectory()), ("trajectory(initial_phases)", b.trajectory(b.initial_phases))):
            z = [float(h(0)) for h in f]
            for i, (k, w) in enumerate(zip(("t", "r", "theta", "phi"), pos)):
                if not abs(z[i] - w) < (sens * (1 + abs(w)) if rpos == thpos == "inside" or i in (0, 3) else 3e-4 * (1 + abs(w))):
                    out.append(f"{k}(0) of {nm} = {z[i]!r}, initial position {w!r}")
        u = [float(h(0)) for h in b.four_velocity()]
        sc = [1 + abs(vel[0]), math.sqrt(abs(R)) / sg + 1e-3 + abs(vel[0]) * 1e-3, abs(uth) + 1e-2, 1 + abs(vel[3])]
        for i, (k, w) in enumerate(zip(("t", "r", "theta", "phi"), vel)):
            t = 1e-4 if rpos == thpos == "inside" else 5e-2
            if not abs(u[i] - w) < t * sc[i] + 1e3 * sens * (i in (1, 2)):
                out.append(f"u^{k}(0) = {u[i]!r}, initial velocity {w!r}")
        # rounding moves R by eps times the size of its terms: where R is well above that the direction of motion is determined
        rs = abs(E * E - 1) * r0**4 + 2 * r0**3 + (a * a * abs(E * E - 1) + Lz * Lz + abs(Q)) * r0**2 + 2 * (abs(a * E) + abs(Lz)) ** 2 * r0 + 2 * abs(Q) * r0 + a * a * abs(Q)
        if ur and R > 1e-9 * rs * max(1, nsc) and u[1] * ur <= 0:
            out.append(f"u^r(0) = {u[1]!r}, initial velocity {ur!r} (opposite direction)")
        zs = abs(Q) + a * a * abs(1 - E * E) + Lz * Lz
        if uth and Z > 1e-9 * zs * max(1, nsc) and u[2] * uth <= 0:
            out.append(f"u^theta(0) = {u[2]!r}, initial velocity {uth!r} (opposite direction)")
        for nm, v, w in (("initial_position", b.initial_position, pos), ("initial_velocity", b.initial_velocity, vel)):
            if any(abs(float(x) - y) > 1e-12 * (1 + abs(y)) for x, y in zip(v, w)):
                out.append(f"{nm} is {v}, given {w}")
        return out


def M_roots(o):
    return geo.roots4(o.sa, *o.consts)[0]


PROP = C14()
