"""C11 initial phases and trajectory deltas"""
from .base import *
from .orbits import *
from .c08 import D, cos2

SH = var("s")
OWN = tuple(var(f"own{i}") for i in range(4))


def at(f, lam):
    return [g(lam) for g in f]


def body(kd):
    def b(K):
        o = kd.build(K)
        f = kd.trajectory(K)
        t, r, th, ph = at(f, LAM)
        z = at(f, S(0))
        K.eq("t(0) = qt0", z[0], QT)
        K.eq("phi(0) = qphi0", z[3], QPH)
        g = o.trajectory()
        for n, x, y in zip(("t", "r", "theta", "phi"), at(g, LAM), (t, r, th, ph)):
            K.eq(f"orbit.trajectory() uses its own phases: {n}", x, y)
        z0 = at(kd.trajectory(K, ZERO), S(0))
        for n, x, y in zip(("t", "r", "theta", "phi"), at(kd.build(K, ZERO).trajectory(PH), LAM), (t, r, th, ph)):
            K.eq(f"orbit.trajectory(phases): {n}", x, y)
        K.eq("zero phases start at t=0", z0[0], S(0))
        K.eq("zero phases start at phi=0", z0[3], S(0))
        K.eq("zero radial phase starts at the inner turning point", z0[1], kd.rmin)
        K.eq("zero polar phase starts at the smallest polar angle", fn("cos", z0[2]), sqrt(kd.zmax))
        K.eq("theta at half a polar period", fn("cos", kd.trajectory(K, (QT, QR, PI, QPH))[2](S(0))), -sqrt(kd.zmax))
        K.eq("r at half a radial period", kd.trajectory(K, (QT, PI, QTH, QPH))[1](S(0)), kd.rmax)
        # translation
        q2 = (QT, QR + o.upsilon_r * SH, QTH + o.upsilon_theta * SH, QPH)
        f2 = at(kd.trajectory(K, q2), LAM)
        fs, f0 = at(f, LAM + SH), at(f, SH)
        K.eq("translation of r", f2[1], fs[1])
        K.eq("translation of theta", fn("cos", f2[2]), fn("cos", fs[2]))
        K.eq("translation of t", f2[0], fs[0] - f0[0] + QT)
        K.eq("translation of phi", f2[3], fs[3] - f0[3] + QPH)
        # deltas
        yr, yth = o.upsilon_r, o.upsilon_theta
        growth = (o.gamma, o.upsilon_phi) if kd.stable else (None, None)
        other = kd.build(K, ZERO)
        other.initial_phases = OWN
        base, base2 = object.__new__(K.orbit.Orbit), object.__new__(K.orbit.Orbit)
        base.__dict__.update(o.__dict__)
        base2.__dict__.update(other.__dict__)
        for nm, h in (("given phases instead of its own", other.trajectory(PH)), ("base class", base.trajectory()),
                      ("base class, given phases instead of its own", base2.trajectory(initial_phases=PH))):
            for n, x, y in zip(("t", "r", "theta", "phi"), at(h, LAM), (t, r, th, ph)):
                K.eq(f"{n} of orbit.trajectory(): {nm}", x, y)
        fz = kd.trajectory(K, ZERO)
        runs = [("", o.trajectory_deltas(), f), ("(phases) ", other.trajectory_deltas(PH), f), ("of the base class ", base.trajectory_deltas(), f),
                ("of the base class (phases) ", base2.trajectory_deltas(initial_phases=PH), f), ("(zero phases) ", o.trajectory_deltas(initial_phases=ZERO), fz),
                ("of the base class (zero phases) ", base.trajectory_deltas(ZERO), fz)]
        for nm, d, ff in runs:
            for c, i, j, gr in (("t", 0, 1, growth[0]), ("phi", 2, 3, growth[1])):
                h = lambda lam: (ff[0 if c == "t" else 3](lam) - d[i](yr * lam) - d[j](yth * lam))
                h0, h1, h2 = h(S(0)), h(LAM), h(SH)
                if gr is not None:
                    K.eq(f"deltas {nm}reproduce {c} with its linear growth", h1 - h0, gr * LAM)
                else:
                    K.eq(f"deltas {nm}reproduce {c} up to linear growth", (h1 - h0) * SH, (h2 - h0) * LAM)
    return b


FUNCS = ["stable_trajectory", "plunging_trajectory", "StableOrbit.trajectory_deltas", "PlungingOrbit.trajectory_deltas",
         "Orbit.trajectory_deltas", "StableOrbit.trajectory", "PlungingOrbit.trajectory", "StableOrbit.__init__", "PlungingOrbit.__init__"]


class C11(Prop):
    id = "C11"
    explanation = ("Trajectory functions, constructors and trajectory_deltas (all three classes) are executed on symbolic orbits, phases, "
                   "Mino time and shift, for stable orbits and for both kinds of plunge; values at Mino time zero, turning points, the "
                   "translation law and the decomposition of t and phi into deltas are proved as identities.")
    assumptions = ["roots and constants through their contracts (C01, C02, C18)"]
    monitor_seconds = 50

    def vcs(self, tier):
        out = []
        for kd in kinds():
            def smp(rng, kd=kd):
                s = kd.sampler(rng)
                return s and dict(s, s=rng.uniform(-2, 2), **{f"own{i}": rng.uniform(-4, 4) for i in range(4)})
            out.append(kd.vc("phases and deltas", FUNCS, body(kd), sampler=smp, min_obligations=20))
        return out

    def cases(self, rng, tier):
        for c in concrete_cases(rng, 160 if tier == "quick" else 2000):
            yield dict(c, s=rng.choice([rng.uniform(-1, 1), rng.uniform(-8, 8)]), lam=mino_time(rng, 2))

    def check(self, inp):
        o = Concrete(inp)
        if not o.ok:
            return []
        q = o.q
        out = []
        orb = o.orbit(q)
        plain = o.orbit()
        M0 = o.motion((0, 0, 0, 0))
        Yr, Yth = M0.Yr, M0.Yth
        f = o.function(q)
        f0 = o.function()
        tol = 1e-7

        def cmp(nm, g, w, t=tol):
            g, w = float(g), float(w)
            if not abs(g - w) <= t * (1 + abs(w)):
                out.append(f"{nm}: {g!r}, required {w!r}")
        for nm, g in (("trajectory function", f), ("orbit", orb.trajectory()), ("phases as argument", plain.trajectory(tuple(q))),
                      ("phases as keyword", plain.trajectory(initial_phases=tuple(q)))):
            cmp(f"t(0) of {nm}", g[0](0), q[0], 1e-9)
            cmp(f"phi(0) of {nm}", g[3](0), q[3], 1e-9)
        for nm, g in (("default phases", f0), ("orbit without phases", plain.trajectory()), ("zero phases", orb.trajectory((0, 0, 0, 0)))):
            cmp(f"t(0) of {nm}", g[0](0), 0)
            cmp(f"phi(0) of {nm}", g[3](0), 0)
            cmp(f"r(0) of {nm}", g[1](0), M0.ra)
            cmp(f"cos theta(0) of {nm}", math.cos(g[2](0)), math.sqrt(M0.zm))
            h = 0.01
            R, TH = M0.r_theta(np.array([h / Yr, h / Yth]))
            cmp(f"r({h / Yr}) of {nm}", g[1](h / Yr), R[0])
            cmp(f"cos theta({h / Yth}) of {nm}", math.cos(g[2](h / Yth)), math.cos(TH[1]))
        # explicit phases, zero ones included, replace the orbit's own
        half = (0, q[1], 0, q[3])
        base = object.__new__(kg()["orbit"].Orbit)
        base.__dict__.update(orb.__dict__)
        for want, ph in ((plain, (0, 0, 0, 0)), (plain, [0.0, 0.0, 0.0, 0.0]), (o.orbit(half), half)):
            w = want.trajectory_deltas()
            for nm, ob in (("orbit", orb), ("base class", base)):
                for n, g, v in zip(("t_r", "t_theta", "phi_r", "phi_theta"), ob.trajectory_deltas(ph), w):
                    cmp(f"{n}(0.8) of {nm} with phases {ph}", g(0.8), v(0.8))
        # translation: the orbit with shifted phases is the orbit at a later time
        s = float(inp.get("s", 0.7))
        lam = np.array([0.0, float(inp.get("lam", 0.5)), -0.37 * 2 * math.pi / Yr, 0.81 * 2 * math.pi / Yth])
        if not o.stable:
            lam = np.array([l for l in lam if len(o.safe([l])) and len(o.safe([l + s])) and len(o.safe([s]))])
        if len(lam):
            q2 = (q[0], q[1] + orb.upsilon_r * s, q[2] + orb.upsilon_theta * s, q[3])
            g = o.function(q2)
            for l in lam:
                cmp(f"translation of r at {l}", g[1](l), f[1](l + s))
                cmp(f"translation of cos theta at {l}", math.cos(g[2](l)), math.cos(f[2](l + s)))
                sc = abs(float(f[0](s))) + abs(float(f[0](l + s))) + 1
                cmp(f"translation of t at {l}", (g[0](l) - q[0]) / sc, (f[0](l + s) - f[0](s)) / sc)
                cmp(f"translation of phi at {l}", g[3](l) - q[3], f[3](l + s) - f[3](s))
            # deltas against the trajectory: t - t_r - t_theta is affine, with the orbit's growth rate
            runs = [("orbit", orb.trajectory_deltas(), orb), ("phases as argument", plain.trajectory_deltas(tuple(q)), orb)]
            b = object.__new__(kg()["orbit"].Orbit)
            b.__dict__.update(orb.__dict__)
            runs.append(("base class", b.trajectory_deltas(), b))
            for ob in (plain, b):
                # the phases given count, whatever the orbit's own are
                c = object.__new__(type(ob))
                c.__dict__.update(ob.__dict__)
                c.initial_phases = (0.3, -0.7, 1.1, 2.0)
                runs.append((f"{type(ob).__name__} with phases instead of its own", c.trajectory_deltas(tuple(q)), b))
                g = c.trajectory(initial_phases=tuple(q))
                for l in lam:
                    for n, x, y in zip(("t", "r", "theta", "phi"), g, f):
                        cmp(f"{n}({l}) of {type(ob).__name__}.trajectory(phases)", x(l), y(l))
            pts = np.array([l for l in np.linspace(-1.2, 1.7, 9) * 2 * math.pi / Yr if len(o.safe([l]))])
            if len(pts) > 3:
                for nm, d, ob in runs:
                    for c, i in (("t", 0), ("phi", 2)):
                        h = np.array([float(f[0 if c == "t" else 3](l)) - float(d[i](orb.upsilon_r * l)) - float(d[i + 1](orb.upsilon_theta * l))
                                      for l in pts])
                        if o.stable:
                            k = orb.gamma if c == "t" else orb.upsilon_phi
                        else:
                            k = (h[-1] - h[0]) / (pts[-1] - pts[0])
                        e = h - k * pts
                        sc = 1 + np.abs([float(f[0 if c == "t" else 3](l)) for l in pts]).max()
                        if not (e.max() - e.min()) / sc < tol:
                            out.append(f"deltas of {nm}: {c}(lambda) - growth - {c}_r - {c}_theta varies by {e.max() - e.min()}")
        if not out:
            d = orb.trajectory_deltas()
            out += vectorized([("trajectory_deltas", [d[0], d[2]], 1e-8, 1e-7)], o.M, o.sa, inp, phase=orb.upsilon_r)
            out += vectorized([("trajectory_deltas", [d[1], d[3]], 1e-8, 1e-7)], o.M, o.sa, inp, phase=orb.upsilon_theta)
        return out


PROP = C11()
