"""C07 orbital frequencies"""
from .base import *
from .orbits import *
from . import orbits

UR, UTH = var("ur"), var("uth")
TWO_PI = 2 * PI


def ref_frequencies(kd):
    """2 pi over the Mino period of the radial and polar motion (roots and constants through C01/C02)"""
    a, E, Lc, Q = kd.consts
    r1, r2, r3, r4 = kd.roots
    kr = (r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4))
    yr = PI * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4)) / (2 * fn("K", kr))
    b = a**2 * (1 - E**2)
    bzp = b + Lc**2 / (1 - kd.zmax)
    yth = PI * sqrt(bzp) / (2 * fn("K", b * kd.zmax / bzp))
    return yr, yth


def absolute(K, nm, x, y):
    """|x| = y >= 0"""
    K.eq(nm, x * x, y * y)


def body(kd):
    a, p, e, x = kd.args
    if kd.name.find("a=0") >= 0:
        # the helpers recover p and e from the outer roots, so these are related to p and e (C02)
        kd.roots = (P / (1 - e), P / (1 + e) if e.n is E_.n else P, R3, R4)
        kd.stubs = dict(kd.stubs, stable_radial_roots=lambda *k, **kw: kd.roots)
        kd.pre = kd.pre + [lt(kd.roots[2], kd.roots[1])]

    def b(K):
        F = K.frequencies
        yr, yth = ref_frequencies(kd)
        t = F.mino_frequencies(a, p, e, x)
        K.eq("radial Mino frequency = 2 pi / Mino period of r", t[0], yr)
        K.eq("polar Mino frequency = 2 pi / Mino period of theta", t[1], yth)
        # averages: the motion is growth plus functions of period 2 pi (with C08 and C11: Gamma, Upsilon_phi are the averages)
        o = kd.build(K)
        f = kd.trajectory(K)
        d = o.trajectory_deltas()
        for n, g, q in zip(("t_r", "t_theta", "phi_r", "phi_theta"), d, (QR, QTH, QR, QTH)):
            K.eq(f"{n} has period 2 pi", g(q + TWO_PI), g(q))
        # with the translation law (C11), a period 2 pi in the phase is a period 2 pi/Upsilon in Mino time
        sh = kd.trajectory(K, (QT, QR + TWO_PI, QTH + TWO_PI, QPH))
        K.eq("r has period 2 pi in the radial phase", sh[1](LAM), f[1](LAM))
        K.eq("theta has period 2 pi in the polar phase", fn("cos", sh[2](LAM)), fn("cos", f[2](LAM)))
        h0 = f[0](S(0)) - d[0](S(0)) - d[1](S(0))
        K.eq("Gamma is the growth rate of t", f[0](LAM) - d[0](t[0] * LAM) - d[1](t[1] * LAM) - h0, t[3] * LAM)
        h0 = f[3](S(0)) - d[2](S(0)) - d[3](S(0))
        K.eq("Upsilon_phi is the growth rate of phi", f[3](LAM) - d[2](t[0] * LAM) - d[3](t[1] * LAM) - h0, t[2] * LAM)
        # every other way
        c = kd.consts[1:]
        i = F.r_frequency(a, p, e, x), F.theta_frequency(a, p, e, x), F.phi_frequency(a, p, e, x), F.gamma(a, p, e, x)
        ways = [("individual functions", i), ("with constants", tuple(getattr(F, n)(a, p, e, x, c) for n in ("r_frequency", "theta_frequency", "phi_frequency", "gamma"))),
                ("with constants by keyword", tuple(getattr(F, n)(a, p, e, x, constants=c) for n in ("r_frequency", "theta_frequency", "phi_frequency", "gamma"))),
                ("with frequencies", (i[0], i[1], F.phi_frequency(a, p, e, x, None, i[0], i[1]), F.gamma(a, p, e, x, None, i[0], i[1]))),
                ("with constants and frequencies", (i[0], i[1], F.phi_frequency(a, p, e, x, c, i[0], i[1]), F.gamma(a, p, e, x, c, i[0], i[1]))),
                ("with the radial frequency", (i[0], i[1], F.phi_frequency(a, p, e, x, upsilon_r=i[0]), F.gamma(a, p, e, x, upsilon_r=i[0]))),
                ("with the polar frequency", (i[0], i[1], F.phi_frequency(a, p, e, x, upsilon_theta=i[1]), F.gamma(a, p, e, x, upsilon_theta=i[1])))]
        ways += [("orbit attributes", (o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma)), ("orbit.mino_frequencies()", o.mino_frequencies())]
        rr = kd.roots
        zz = K.constants.stable_polar_roots(a, p, e, x)
        hid = [getattr(F, n, None) for n in ("_r_frequency_from_constants", "_theta_frequency_from_constants", "_phi_frequency_from_constants",
                                             "_gamma_from_constants", "_mino_frequencies_from_constants", "_fundamental_frequencies_from_constants")]
        if all(hid):
            ways += [("from constants and roots", (hid[0](c, rr), hid[1](a, c, rr, zz), hid[2](a, c, rr, zz), hid[3](a, c, rr, zz))),
                     ("from constants, roots and frequencies", (i[0], i[1], hid[2](a, c, rr, zz, i[0], i[1]), hid[3](a, c, rr, zz, i[0], i[1]))),
                     ("tuple from constants and roots", hid[4](a, c, rr, zz))]
        for nm, w in ways:
            K.eq(f"radial: {nm}", w[0], t[0])
            absolute(K, f"polar: {nm}", w[1], t[1])
            K.eq(f"azimuthal: {nm}", w[2], t[2])
            K.eq(f"time dilation: {nm}", w[3], t[3])
        om = [("function", F.fundamental_frequencies(a, p, e, x)), ("attributes", (o.omega_r, o.omega_theta, o.omega_phi)), ("method", o.fundamental_frequencies())]
        if hid[5]:
            om.append(("from constants and roots", hid[5](a, c, rr, zz)))
        for nm, w in om:
            for n, g, k in zip(("radial", "polar", "azimuthal"), w, t):
                K.eq(f"Boyer-Lindquist {n}: {nm}", g * t[3], k)
    return b


FUNCS = ["r_frequency", "theta_frequency", "phi_frequency", "gamma", "mino_frequencies", "fundamental_frequencies", "_r_frequency_from_constants",
         "_theta_frequency_from_constants", "_phi_frequency_from_constants", "_gamma_from_constants", "_mino_frequencies_from_constants",
         "_fundamental_frequencies_from_constants", "Orbit.mino_frequencies", "Orbit.fundamental_frequencies", "StableOrbit.__init__"]


class C07(Prop):
    id = "C07"
    explanation = ("Every frequency function, the tuple functions, the helpers working from constants and roots, and the orbit attributes and "
                   "methods are executed on a symbolic orbit: closed forms of the radial and polar periods, periodicity of r, theta and of the "
                   "deltas, growth of t and phi by Gamma and Upsilon_phi, and equality of all ways are proved as identities.")
    assumptions = ["roots and constants through their contracts (C01, C02)", "sn increases from 0 to 1 over a quarter period K (with this the period integrals reduce to K, proved)", "t and phi satisfy their geodesic equations (C08)"]
    monitor_seconds = 45

    def vcs(self, tier):
        ks = [stable_kind(1, 1, 1), stable_kind(1, 1, -1), stable_kind(0, 1, 1), stable_kind(0, 1, -1), stable_kind(1, 0, 1), stable_kind(1, 0, -1),
              stable_kind(0, 0, 1), stable_kind(0, 0, -1), stable_kind(1, 1, 1, True), stable_kind(1, 1, -1, True), stable_kind(1, 0, 1, True)]
        return [kd.vc("frequencies", FUNCS, body(kd), min_obligations=40) for kd in ks] + [v for v in reduction_vcs() if "lower" not in v.name and "complex" not in v.name]

    def cases(self, rng, tier):
        for i in range(220 if tier == "quick" else 4000):
            a, p, e, x = stable_orbit(rng, i, 0.95, negative=i % 6 == 5)
            yield dict(kind="stable", a=a, p=p, e=e, x=x, phases=[0, 0, 0, 0])

    def check(self, inp):
        o = Concrete(inp)
        if not o.ok:
            return []
        F = kg()["frequencies"]
        a, p, e, x = o.args
        w = o.M.mino_frequencies() if e > 0.02 else spec.mino_frequencies(o.sa, p, e, std(a, x)[1], o.consts)
        w = [float(v) for v in w]
        out = []
        tol = 3e-8
        i = F.r_frequency(a, p, e, x), F.theta_frequency(a, p, e, x), F.phi_frequency(a, p, e, x), F.gamma(a, p, e, x)
        c = o.consts
        names = ("r_frequency", "theta_frequency", "phi_frequency", "gamma")
        orb = o.orbit()
        ways = [("individual functions", i), ("with constants", tuple(getattr(F, n)(a, p, e, x, c) for n in names)),
                ("with constants by keyword", tuple(getattr(F, n)(a, p, e, x, constants=c) for n in names)),
                ("with frequencies", (i[0], i[1], F.phi_frequency(a, p, e, x, None, i[0], i[1]), F.gamma(a, p, e, x, None, i[0], i[1]))),
                ("with the radial frequency", (i[0], i[1], F.phi_frequency(a, p, e, x, upsilon_r=i[0]), F.gamma(a, p, e, x, upsilon_r=i[0]))),
                ("with the polar frequency", (i[0], i[1], F.phi_frequency(a, p, e, x, upsilon_theta=i[1]), F.gamma(a, p, e, x, upsilon_theta=i[1]))),
                ("tuple", F.mino_frequencies(a, p, e, x)),
                ("orbit attributes", (orb.upsilon_r, orb.upsilon_theta, orb.upsilon_phi, orb.gamma)), ("orbit.mino_frequencies()", orb.mino_frequencies())]
        kc = kg()["constants"]
        hid = [getattr(F, f"_{n}_from_constants", None) for n in names + ("mino_frequencies", "fundamental_frequencies")]
        om = []
        if all(hid):
            sa, sx = std(a, x)
            rr, zz = kc.stable_radial_roots(sa, p, e, sx), kc.stable_polar_roots(sa, p, e, sx)
            ways += [("individually from constants and roots", (abs(hid[0](c, rr)), abs(hid[1](sa, c, rr, zz)), hid[2](sa, c, rr, zz), hid[3](sa, c, rr, zz))),
                     ("from constants and roots", hid[4](sa, c, rr, zz))]
            om = [("from constants and roots", hid[5](sa, c, rr, zz))]
        for nm, g in ways:
            for k, n in enumerate(("radial", "polar", "azimuthal", "time dilation")):
                v = float(g[k])
                if k == 1 and nm[0] in "iw":
                    v = abs(v)
                if not abs(v - w[k]) <= tol * (1 + abs(w[k])):
                    out.append(f"{n} frequency, {nm}: {v!r}, average over the motion gives {w[k]!r}")
        for nm, g in (("function", F.fundamental_frequencies(a, p, e, x)), ("attributes", (orb.omega_r, orb.omega_theta, orb.omega_phi)),
                      ("method", orb.fundamental_frequencies()), *om):
            for k, n in enumerate(("radial", "polar", "azimuthal")):
                if not abs(float(g[k]) - w[k] / w[3]) <= tol * abs(w[k] / w[3]) + 1e-12:
                    out.append(f"Boyer-Lindquist {n} frequency, {nm}: {float(g[k])!r}, required {w[k] / w[3]!r}")
        self.n += 1
        if self.n % 3 == 0:
            out += typed([(n, getattr(F, n)) for n in names + ("mino_frequencies", "fundamental_frequencies")], whole_orbit(a, p, e, x, self.n // 3, False))
        return out
    n = 0


PROP = C07()
