"""C12 four-velocity"""
from .base import *
from .orbits import *
from .c08 import D
from . import orbits

RV, TV, QV = var("r"), var("th"), var("Q")
YR, YTH = var("yr"), var("yth")
SG = RV**2 + A**2 * fn("cos", TV) ** 2


def here(v, name):
    """a coordinate function with value v at Mino time lam and unknown values elsewhere"""
    return lambda lam: v if N(lam) is LAM.n else opaque(name, lam)


def body_spacetime(zero):
    def b(K):
        a = S(0) if zero else A
        st = K.spacetime.KerrSpacetime(a)
        u = st.four_velocity(here(var("t"), "t"), here(RV, "r"), here(TV, "th"), here(var("ph"), "ph"), (EN, L, QV), YR, YTH, PH)
        u = [f(LAM) for f in u]
        c, s = fn("cos", TV), fn("sin", TV)
        sg = RV**2 + a**2 * c * c
        g = spec.metric(a, RV, c * c, s * s)
        K.eq("u^t", u[0], spec.dt(a, EN, L, RV, c * c) / sg)
        K.eq("u^phi", u[3], spec.dphi(a, EN, L, RV, c * c) / sg)
        K.eq("(Sigma u^r)^2 = R", (sg * u[1]) ** 2, spec.R(a, EN, L, QV, RV))
        K.eq("(Sigma sin u^theta)^2 = Z", (sg * u[2] * s) ** 2, spec.Z(a, EN, L, QV, c))
        K.eq("norm", sum(g[i][j] * u[i] * u[j] for i in range(4) for j in range(4)), S(-1))
        K.eq("E", -(g[0][0] * u[0] + g[0][3] * u[3]), EN)
        K.eq("L", g[3][0] * u[0] + g[3][3] * u[3], L)
        K.eq("Q", ((sg * u[2] * s) ** 2 + c * c * (a * a * (1 - EN**2) * s * s + L**2)) / (s * s), QV)
        # signs on the two halves of each oscillation
        sr, sth = fn("sin", YR * LAM + QR), fn("sin", YTH * LAM + QTH)
        K.true("u^r has the sign of sin q_r", T.bor(T.rel(sr.n, "=="), le(0, u[1] * sr)))
        K.true("u^theta has the sign of sin q_theta", T.bor(T.rel(sth.n, "=="), le(0, u[2] * s * sth)))
    return b


GIVEN = tuple(var(f"g{i}") for i in range(4))


def body_orbit(kd):
    def b(K):
        rec = []
        cls = K.spacetime.KerrSpacetime

        def hook(self, *args, **k):
            import inspect
            got = inspect.signature(old).bind(self, *args, **k).arguments
            rec.append((self, got))
            return tuple((lambda lam, n=n: opaque("u" + n, lam)) for n in "trhp")
        old = cls.four_velocity
        cls.four_velocity = hook
        try:
            o = kd.make(K)
            ref = [f(LAM) for f in o.trajectory()]
            runs = [("own phases", o, lambda: o.four_velocity(), PH, ref),
                    ("given phases", o, lambda: o.four_velocity(ZERO), ZERO, [f(LAM) for f in o.trajectory(ZERO)]),
                    ("given phases by keyword", o, lambda: o.four_velocity(initial_phases=ZERO), ZERO, [f(LAM) for f in o.trajectory(ZERO)])]
            bo = object.__new__(K.orbit.Orbit)
            bo.__dict__.update(o.__dict__)
            gv = [f(LAM) for f in o.trajectory(GIVEN)]
            runs += [("base class", bo, lambda: bo.four_velocity(), PH, ref), ("other phases", o, lambda: o.four_velocity(GIVEN), GIVEN, gv),
                     ("base class, other phases", bo, lambda: bo.four_velocity(initial_phases=GIVEN), GIVEN, gv)]
            for nm, ob, call, ph, tr in runs:
                del rec[:]
                u = call()
                if len(rec) != 1:
                    raise T.Unsupported("four_velocity does not use KerrSpacetime.four_velocity")
                st, k = rec[0]
                K.eq(f"{nm}: spin", st.a, kd.consts[0])
                for n, x, y in zip(("t", "r", "theta", "phi"), (k["t"], k["r"], k["theta"], k["phi"]), tr):
                    K.eq(f"{nm}: {n} is the trajectory", x(LAM), y)
                for n, x, y in zip("ELQ", k["constants"], kd.consts[1:]):
                    K.eq(f"{nm}: {n}", x, y)
                for n, x, y in zip(("qt", "qr", "qtheta", "qphi"), k["initial_phases"], ph):
                    K.eq(f"{nm}: phase {n}", x, y)
                K.eq(f"{nm}: upsilon_r", k["upsilon_r"], ob.upsilon_r)
                K.eq(f"{nm}: upsilon_theta", k["upsilon_theta"], ob.upsilon_theta)
                for n, f in zip("trhp", u):
                    K.eq(f"{nm}: returned component {n}", f(LAM), opaque("u" + n, LAM))
        finally:
            cls.four_velocity = old
        for n, x, y in zip(("t", "r", "theta", "phi"), o.initial_position, [f(S(0)) for f in o.trajectory()]):
            K.eq(f"initial_position {n}", x, y)
        for n, x in zip("trhp", o.initial_velocity):
            K.eq(f"initial_velocity {n}", x, opaque("u" + n, S(0)))
        # sign of the derivatives: with u = u(q), sn(K q/pi)cn(K q/pi) and sn(2Kq/pi) have the sign of sin q, cn(2K/pi(q+pi/2)) that of -sin q (K the complete integral)
        t, r, th, ph = [f(LAM) for f in o.trajectory()]
        q = o.upsilon_r * LAM + QR
        if isinstance(kd.roots[2], T.SymC):
            Ac, Bc = c10.CA, c10.CB
            k2 = ((R2 - R1) ** 2 - (Ac - Bc) ** 2) / (4 * Ac * Bc)
            w = 2 * fn("K", k2) / PI * q
            sn, cn, dn = (fn(n, w, k2) for n in ("sn", "cn", "dn"))
            yr = sqrt(Ac * Bc * (1 - EN**2))
            coef = 2 * Ac * Bc * (R2 - R1) * yr / (Ac * (1 + cn) + Bc * (1 - cn)) ** 2
            K.eq("dr/dlambda is a positive multiple of sn(2 K q_r/pi)", D(r), coef * sn * dn)
        elif kd.rmin is not kd.rmax and kd.rmin.n is not kd.rmax.n:
            k2 = (R1 - R2) * (R3 - R4) / ((R1 - R3) * (R2 - R4))
            w = fn("K", k2) / PI * q
            sn, cn, dn = (fn(n, w, k2) for n in ("sn", "cn", "dn"))
            coef = 2 * (R1 - R2) * (R1 - R3) * (R2 - R3) / ((R1 - R2) * sn**2 - (R1 - R3)) ** 2 * sqrt((1 - EN**2) * (R1 - R3) * (R2 - R4)) / 2
            K.eq("dr/dlambda is a positive multiple of (sn cn)(K q_r/pi)", D(r), coef * sn * cn * dn)
            K.true("the multiple is positive", lt(0, (R1 - R2) * (R1 - R3) * (R2 - R3)))
        a, E, Lc, Qc = kd.consts
        bzp = a**2 * (1 - E**2) + Lc**2 / (1 - kd.zmax)
        k2 = a**2 * (1 - E**2) * kd.zmax / bzp
        w = 2 * fn("K", k2) / PI * (o.upsilon_theta * LAM + QTH + PI / 2)
        K.eq("dcos(theta)/dlambda is a positive multiple of cn(2K/pi(q_theta+pi/2))", D(fn("cos", th)),
             sqrt(kd.zmax) * sqrt(bzp) * fn("cn", w, k2) * fn("dn", w, k2))
    return b


def smp_spacetime(rng):
    for _ in range(50):
        inp = next(iter(concrete_cases(rng, 1, rng.choice("sscrh"))), None)
        if inp is None or inp.get("e") == 0 or inp["a"] <= 0:
            continue
        o = Concrete(inp)
        if not o.ok:
            continue
        lam = mino_time(rng, 2)
        if not len(o.safe([lam])):
            continue
        r, th = o.M.r_theta(np.array([lam]))
        E, Lz, Q = o.consts
        return dict(a=o.sa, E=E, L=Lz, Q=Q, r=float(r[0]), th=float(th[0]), t=rng.uniform(-9, 9), ph=rng.uniform(-9, 9), yr=rng.uniform(.3, 3),
                    yth=rng.uniform(.3, 4), **phase_sample(rng))


def smp_zero(rng):
    for _ in range(50):
        a, p, e, x = stable_orbit(rng, 1, 0.8)
        o = Concrete(dict(kind="stable", a=0.0, p=p, e=e, x=x))
        if not o.ok:
            continue
        r, th = o.M.r_theta(np.array([rng.uniform(-2, 2)]))
        E, Lz, Q = o.consts
        return dict(a=.5, E=E, L=Lz, Q=Q, r=float(r[0]), th=float(th[0]), t=0.2, ph=0.7, yr=rng.uniform(.3, 3), yth=rng.uniform(.3, 4),
                    **phase_sample(rng))


class C12(Prop):
    id = "C12"
    explanation = ("KerrSpacetime.four_velocity is executed on unknown coordinate functions at a symbolic Mino time: norm, conserved "
                   "quantities, components and signs are proved for all arguments in the allowed region (R>=0, Z>=0); Orbit.four_velocity and "
                   "the constructors are proved to hand it the orbit's own trajectory, constants, frequencies and phases; dr/dlambda of every "
                   "kind of trajectory is proved to be a positive multiple of a Jacobi function with the sign of sin q_r.")
    assumptions = ["R(r)>=0 and Z(cos theta)>=0 on the trajectory (C08-C10), 0<theta<pi",
                   "Jacobi functions: sn cn (K q/pi) and sn(2 K q/pi) have the sign of sin q"]
    monitor_seconds = 50

    def vcs(self, tier):
        c = fn("cos", TV)
        out = []
        for zero in (False, True):
            a = S(0) if zero else A
            pre = ([] if zero else [lt(0, A), lt(A, 1)]) + [le(0, spec.R(a, EN, L, QV, RV)), le(0, spec.Z(a, EN, L, QV, c)), lt(0, RV), lt(0, fn("sin", TV)),
                                                            lt(0, EN), lt(EN, 1)]
            out.append(VC("KerrSpacetime.four_velocity" + (" a=0" if zero else ""), ["KerrSpacetime.four_velocity"], body_spacetime(zero), pre,
                          smp_zero if zero else smp_spacetime, min_obligations=10, nsamples=10,
                          concretize=lambda s, zero=zero: dict(kind="spacetime", a=0.0 if zero else s["a"], E=s["E"], L=s["L"], Q=s["Q"], r=s["r"], th=s["th"],
                                                               yr=s["yr"], yth=s["yth"], lam=s["lam"], phases=[s["qt0"], s["qr0"], s["qth0"], s["qphi0"]])))
        for kd in kinds():
            out.append(kd.vc("orbit four-velocity", ["Orbit.four_velocity", "StableOrbit.__init__", "PlungingOrbit.__init__"], body_orbit(kd), min_obligations=40,
                             sampler=lambda rng, kd=kd: (lambda s: s and dict(s, **{f"g{i}": rng.uniform(-4, 4) for i in range(4)}))(kd.sampler(rng))))
        return out

    def cases(self, rng, tier):
        for i, c in enumerate(concrete_cases(rng, 150 if tier == "quick" else 2000)):
            yield dict(c, base=i % 3 == 1)
            if i % 5 == 0:
                s = smp_spacetime(rng)
                if s:
                    yield dict(kind="spacetime", **{k: s[k] for k in ("a", "E", "L", "Q", "r", "th", "yr", "yth", "lam")},
                               phases=[s["qt0"], s["qr0"], s["qth0"], s["qphi0"]])

    def velocity(self, nm, a, consts, r, th, u, want=None, sgn=None):
        """u against the metric and the constants"""
        E, Lz, Q = consts
        out = []
        c2, s2 = math.cos(th) ** 2, math.sin(th) ** 2
        g = spec.metric(a, r, c2, s2)
        sg = r * r + a * a * c2
        Dl = r * r - 2 * r + a * a
        sc = (r * r + a * a) ** 2 / abs(Dl) / sg * E + 1
        n = sum(g[i][j] * u[i] * u[j] for i in range(4) for j in range(4))
        nsc = sum(abs(g[i][j] * u[i] * u[j]) for i in range(4) for j in range(4))
        if not abs(n + 1) < 1e-7 * (1 + nsc):
            out.append(f"norm of {nm}: {n!r}")
        for k, x, y in (("E", -(g[0][0] * u[0] + g[0][3] * u[3]), E), ("L", g[3][0] * u[0] + g[3][3] * u[3], Lz)):
            if not abs(x - y) < 1e-7 * (1 + abs(y) + abs(g[3][3] * u[3]) + abs(g[0][0] * u[0])):
                out.append(f"{k} of {nm}: {x!r}, orbit has {y!r}")
        q = ((sg * u[2]) ** 2 * s2 + c2 * (a * a * (1 - E * E) * s2 + Lz**2)) / s2
        if not abs(q - Q) < 1e-7 * (1 + abs(Q) + Lz**2 / s2):
            out.append(f"Q of {nm}: {q!r}, orbit has {Q!r}")
        ref = (float(spec.dt(a, E, Lz, r, c2)) / sg, None, None, float(spec.dphi(a, E, Lz, r, c2)) / sg)
        for i in (0, 3):
            if not abs(u[i] - ref[i]) < 1e-8 * (1 + sc + abs(ref[i])):
                out.append(f"u[{i}] of {nm}: {u[i]!r}, required {ref[i]!r}")
        if want is not None:
            # at a turning point the square root amplifies rounding: compare squares, and signs away from it
            for i, w, s in ((1, want[0], (E * (r * r + a * a) + abs(a * Lz)) ** 2 + abs(Dl) * (r * r + (a * E - Lz) ** 2 + Q) + 1),
                            (2, want[1], 1 + Q + Lz**2 / s2 + a * a)):
                g = u[i] * sg
                if not abs(g * g - w * w) < 1e-9 * s + 1e-7 * w * w or (w * w > 1e-6 * s and g * w < 0):
                    out.append(f"u[{i}] of {nm}: {u[i]!r}, derivative of the trajectory gives {w / sg!r}")
        return out

    def check(self, inp):
        if inp["kind"] == "spacetime":
            a, E, Lz, Q, r, th, yr, yth, lam = (float(inp[k]) for k in ("a", "E", "L", "Q", "r", "th", "yr", "yth", "lam"))
            R, Z = spec.R(a, E, Lz, Q, r), spec.Z(a, E, Lz, Q, math.cos(th))
            if R < 0 or Z < 0 or abs(r * r - 2 * r + a * a) < 1e-3:
                return []
            ph = inp["phases"]
            k = {}

            def fun(v, k=1.0):
                return lambda l: v + k * (l - lam)
            st = kg()["spacetime"].KerrSpacetime(a)
            u = [float(f(lam)) for f in st.four_velocity(fun(.3), fun(r), fun(th, .1), fun(.7), (E, Lz, Q), yr, yth, tuple(ph))]
            dr, dth = math.copysign(math.sqrt(R), math.sin(yr * lam + ph[1])), math.copysign(math.sqrt(Z), math.sin(yth * lam + ph[2])) / math.sin(th)
            return self.velocity("KerrSpacetime.four_velocity", a, (E, Lz, Q), r, th, u, (dr, dth))
        o = Concrete(inp)
        if not o.ok:
            return []
        q = o.q
        out = []
        orb = o.orbit(q)
        plain = o.orbit()
        M = o.M
        Y, Yt = 2 * math.pi / M.Yr, 2 * math.pi / M.Yth
        lam = o.safe(np.array([.03 * Y, .21 * Y, .44 * Y, .58 * Y, .83 * Y, -.13 * Y, -.4 * Y, -.77 * Y, 2.31 * Y, -3.64 * Y, .1 * Yt, .35 * Yt, .6 * Yt, .9 * Yt,
                               -.3 * Yt, -.8 * Yt, 0.0] + ([float(inp["lam"])] if "lam" in inp else [])))
        if not len(lam):
            return []
        runs = [("orbit", orb.four_velocity(), orb), ("orbit with phases", plain.four_velocity(tuple(q)), orb),
                ("orbit with phases by keyword", plain.four_velocity(initial_phases=tuple(q)), orb)]
        v = M.velocities(lam)
        R, TH = M.r_theta(lam)
        for nm, u, ob in runs:
            arr = [np.asarray(f(lam), float) for f in u]
            for i, l in enumerate(lam):
                if o.stable and abs(o.args[3]) == 1:
                    th = math.pi / 2
                else:
                    th = float(TH[i])
                out += self.velocity(f"{nm} at {l!r}", o.sa, o.consts, float(R[i]), th, [float(f(l)) for f in u], (v[0][i], v[1][i]))
                for k, f in zip(range(4), u):
                    s = float(f(l))
                    if not abs(arr[k][i] - s) <= 1e-9 * (1 + abs(s)):
                        out.append(f"{nm} component {k} at {l!r}: {arr[k][i]!r} in an array, {s!r} alone")
            if out:
                return out
        t0 = [float(f(0)) for f in orb.trajectory()]
        u0 = [float(f(0)) for f in orb.four_velocity()]
        for i in range(4):
            out += [bad(f"initial_position[{i}]", orb.initial_position[i], t0[i]), bad(f"initial_velocity[{i}]", orb.initial_velocity[i], u0[i])]
        # the phases given count, whatever the orbit's own are
        for cls in (type(orb), kg()["orbit"].Orbit):
            c = object.__new__(cls)
            c.__dict__.update(orb.__dict__)
            c.initial_phases = (0.3, -0.7, 1.1, 2.0)
            for l in lam[:4]:
                out += [bad(f"u[{k}]({l}) of {cls.__name__}.four_velocity(phases)", f(l), g(l)) for k, (f, g) in
                        enumerate(zip(c.four_velocity(tuple(q)), orb.four_velocity()))]
        if inp.get("base") and not out and len(o.safe([0.0])) and o.consts[2] > 1e-3:
            try:
                b = o.base_orbit(orb)
            except ValueError:
                return [x for x in out if x]
            u = b.four_velocity()
            R, TH = M.r_theta(lam)
            for i, l in enumerate(lam[:8]):
                ru = [float(f(l)) for f in u]
                fr = [float(f(l)) for f in b.trajectory()]
                if len(o.safe([l])):
                    out += self.velocity(f"Orbit at {l!r}", o.sa, (b.E, b.L, b.Q), fr[1], fr[2], ru)
        out = [x for x in out if x]
        return out or vectorized([("four_velocity", orb.four_velocity(), 1e-8, 1e-6)], M, o.sa, inp)


PROP = C12()
