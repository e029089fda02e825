"""C18 radial roots and Mino frequencies of plunging orbits"""
import random
from .base import *
from .orbits import *
from .. import geo
from . import c09, c10
from .c03 import proportional

FUNCS = ["plunging_radial_roots", "plunging_mino_frequencies", "_mino_frequencies_from_constants", "_r_frequency_from_constants",
         "_theta_frequency_from_constants", "PlungingOrbit.__init__", "plunging_trajectory"]
TWO_PI = 2 * PI
SH = var("s")


def same_root(K, nm, x, y):
    K.eq(nm, real(x), real(y))
    K.eq(nm + " (imaginary part)", imag(x), imag(y))


def real(x):
    return T.Sym(x.re) if isinstance(x, T.SymC) else S(x)


def imag(x):
    return T.Sym(x.im) if isinstance(x, T.SymC) else S(0)


def root_handler(consts, roots, polar=None):
    """contract of numpy's Polynomial.roots: the four roots (in the order given) of the radial potential, both roots of the polar one; the code must
    hand it these polynomials up to a factor"""
    def f(coefs):
        coefs = [S(c) for c in coefs]
        if len(coefs) == 5:
            proportional("radial polynomial", coefs, [S(c) for c in spec.R_coefficients(*consts)])
            return T.SymSeq(list(roots))
        if len(coefs) == 3 and polar:
            return polar(coefs)
        raise T.Unsupported("roots of an unexpected polynomial")
    return f


G, H = var("g"), var("h")                # a complex pair g +- i h



def horizon(pos):
    """r_minus = 1 - sqrt(1-a^2) lies in the region between the roots of that position, ascending roots R4<R3<R2<R1"""
    rm, rp = 1 - sqrt(1 - A**2), 1 + sqrt(1 - A**2)
    lo, hi = {"low": (R4, R3), "high": (R2, R1)}[pos]
    return [lt(lo, rm), lt(rp, hi)]


ASC = [lt(R4, R3), lt(R3, R2), lt(R2, R1)]


def roots_sample(pos):
    def f(rng):
        q = c09.sample(rng, pos)
        if q is None:
            return None
        re = geo.roots4(*q[0])[0]
        return dict(zip(("a", "E", "L", "Q", "r4", "r3", "r2", "r1"), (*q[0], *re)))
    return f


def conc(s):
    return dict(a=s["a"], E=s["E"], L=s["L"], Q=s["Q"])


QV = var("Q")


def horizon_lemmas(functions):
    """the horizons r- < r+ of a bound orbit lie in one allowed region, so that the configurations "low" and "high" are all there are"""
    r, u, rm, rp, k, w, D = (var(n) for n in ("r", "u", "rm", "rp", "k", "w", "D"))
    out = []

    def vc(name, cond, pre, smp):
        out.append(VC("horizons: " + name, functions, lambda K: K.true(name, cond()), pre, smp, z3_ms=8000))
        out[-1].hunting = False

    def carter(K):
        z = spec.Z_coefficients(A, EN, L, QV)
        K.zero("(1-u) ((L-aE)^2 + Q) from the polar potential", (1 - u) * ((L - A * EN)**2 + QV)
               - (z[0] + z[1] * u + z[2] * u * u + L**2 * u + A**2 * (1 - EN**2) * u * (1 - u) + (1 - u) * (L - A * EN)**2))
        c = spec.R_coefficients(A, EN, L, QV)
        K.zero("radial potential = P^2 - Delta (r^2 + K)", sum(x * r**(len(c) - 1 - i) for i, x in enumerate(reversed(c)))
               - ((EN * (r * r + A * A) - A * L)**2 - (r * r - 2 * r + A * A) * (r * r + (L - A * EN)**2 + QV)))
    some = lambda rng: dict(a=rng.uniform(.1, .9), E=rng.uniform(.1, .9), L=rng.uniform(-3, 3), Q=rng.uniform(.1, 5), r=rng.uniform(.1, 3), u=rng.uniform(0, .9))
    out.append(VC("horizons: identities", functions, carter, [lt(u, 1)], some))
    Z, b, x = var("Z"), var("b"), var("x")
    vc("K >= 0 where the polar potential is not negative", lambda: le(0, k), [le(0, Z), le(0, u), lt(u, 1), le(0, b), T.rel(N((1 - u) * k - (Z + L**2 * u + b * u * (1 - u) + (1 - u) * x**2)), "==")],
       lambda rng: (lambda Z, u, b, L, x: dict(Z=Z, u=u, b=b, L=L, x=x, k=(Z + L * L * u + b * u * (1 - u) + (1 - u) * x * x) / (1 - u)))(*[T_half(rng) for _ in range(5)]))
    vc("R >= 0 between the horizons", lambda: le(0, w * w - D * (r * r + k)), [le(D, 0), le(0, k)],
       lambda rng: dict(D=-rng.uniform(0, 1), k=rng.uniform(0, 3), w=rng.uniform(-1, 1), r=rng.uniform(0, 2)))
    F = lambda y: (R1 - y) * (y - R2) * (y - R3) * (y - R4)
    mid = (R2 + R3) / 2
    inside = lambda lo, hi: T.band(le(lo, rm), le(rp, hi))
    four = lambda rng: dict(zip(("r4", "r3", "r2", "r1"), sorted(rng.uniform(0, 9) for _ in range(4))))

    def place(rng, d, regions):
        lo, hi = rng.choice(regions(d))
        x, y = sorted((rng.uniform(lo, hi), rng.uniform(lo, hi)))
        return dict(d, rm=x, rp=y)
    vc("four real roots: both in one of the two regions", lambda: T.bor(inside(R4, R3), inside(R2, R1)),
       [lt(R4, R3), lt(R3, R2), lt(R2, R1), lt(rm, rp), le(0, F(rm)), le(0, F(rp)), T.bor(lt(mid, rm), lt(rp, mid), le(0, F(mid)))],
       lambda rng: place(rng, four(rng), lambda d: [(d["r4"], d["r3"]), (d["r2"], d["r1"])]))
    C = lambda y: (R2 - y) * (y - R1) * ((y - G)**2 + H**2)
    vc("two complex roots: both between the real ones", lambda: inside(R1, R2), [lt(R1, R2), lt(0, H), lt(rm, rp), le(0, C(rm)), le(0, C(rp))],
       lambda rng: place(rng, dict(r1=rng.uniform(0, 1), r2=rng.uniform(2, 5), g=rng.uniform(0, 2), h=rng.uniform(.1, 2)), lambda d: [(d["r1"], d["r2"])]))
    return out


def T_half(rng):
    """dyadic, so that identities hold exactly"""
    return rng.randint(1, 7) / 8


def roots_vcs():
    out = []
    pre = [lt(0, A), lt(A, 1), lt(0, EN), lt(EN, 1)]
    cs = (A, EN, L, QV)

    def four(want):
        def b(K):
            for nm, v in (("", K.constants.plunging_radial_roots(*cs)), (" by keyword", K.constants.plunging_radial_roots(a=A, E=EN, L=L, Q=QV))):
                K.true("four roots" + nm, T.TRUE if len(v) == 4 else T.FALSE)
                for i, (x, y) in enumerate(zip(v, want)):
                    K.eq(f"r{i + 1}{nm}", x, y)
        return b
    for pos, want in (("low", (R3, R4, R1, R2)), ("high", (R1, R2, R3, R4))):
        for nm, order in (("increasing", (R4, R3, R2, R1)), ("in another order", (R2, R4, R1, R3))):
            out.append(VC(f"four real roots, motion between the {'smallest' if pos == 'low' else 'largest'} two, numpy returns them {nm}",
                          ["plunging_radial_roots"], four(want), pre + ASC + horizon(pos), roots_sample(pos), poly_roots=root_handler(cs, order),
                          concretize=conc, nsamples=4))

    def pair(K):
        v = K.constants.plunging_radial_roots(*cs)
        K.true("four roots", T.TRUE if len(v) == 4 else T.FALSE)
        for i, y in ((0, R1), (1, R2)):
            K.eq(f"r{i + 1}", real(v[i]), y)
            K.eq(f"r{i + 1} is real", imag(v[i]), S(0))
        K.eq("r3 and r4 have the real part of the pair", real(v[2]), G)
        K.eq("r3 and r4 have the same real part", real(v[3]), G)
        K.eq("r3 and r4 are conjugate", imag(v[2]), -imag(v[3]))
        K.eq("imaginary part of the pair", imag(v[3]) ** 2, H**2)

    def smp(rng):
        q = c09.sample(rng, "complex")
        if q is None:
            return None
        return dict(zip(("a", "E", "L", "Q", "r1", "r2", "g", "h"), (*q[0], *q[1], q[2][0].real, abs(q[2][0].imag))))
    up, dn = T.SymC(G.n, H.n), T.SymC(G.n, (-H).n)
    for nm, order in (("sorted by real part, pair first", (dn, up, R1, R2)), ("pair last", (R1, R2, dn, up)), ("pair in between", (R1, up, dn, R2)),
                      ("unsorted", (R2, up, R1, dn))):
        out.append(VC(f"two complex roots, {nm}", ["plunging_radial_roots"], pair, pre + [lt(R1, R2), lt(0, H)], smp,
                      poly_roots=root_handler(cs, [T.SymC.of(r) for r in order]), concretize=conc, nsamples=4))
    return out


def ref_frequencies(kd):
    a, E, Lc, Q = kd.consts
    b = a**2 * (1 - E**2)
    bzp = b + Lc**2 / (1 - kd.zmax)
    yth = PI * sqrt(bzp) / (2 * fn("K", b * kd.zmax / bzp))
    if isinstance(kd.roots[2], T.SymC):
        k = ((R2 - R1) ** 2 - (c10.CA - c10.CB) ** 2) / (4 * c10.CA * c10.CB)
        return PI * sqrt(c10.CA * c10.CB * (1 - E**2)) / (2 * fn("K", k)), yth
    r1, r2, r3, r4 = kd.roots
    # the region [r2, r1] of the other two roots r3, r4, both below or both above
    k = (r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4))
    return PI * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4)) / (2 * fn("K", k)), yth


def freq_body(kd):
    def b(K):
        yr, yth = ref_frequencies(kd)
        F = K.frequencies.plunging_mino_frequencies
        o = kd.build(K)
        a, E, Lc, Q = kd.consts
        for nm, v in (("", F(*kd.consts)), (" by keyword", F(a=a, E=E, L=Lc, Q=Q)), (" of the orbit", (o.upsilon_r, o.upsilon_theta))):
            K.true("two frequencies" + nm, T.TRUE if len(v) == 2 else T.FALSE)
            K.eq("radial Mino frequency = 2 pi / Mino period of r" + nm, v[0], yr)
            K.eq("polar Mino frequency = 2 pi / Mino period of theta" + nm, v[1], yth)
        f = kd.trajectory(K)
        z = kd.trajectory(K, ZERO)
        # a shift of Mino time is a shift of the phases at the rates Upsilon, and the motion has period 2 pi in the phases
        sh = kd.trajectory(K, (QT, QR + o.upsilon_r * SH, QTH + o.upsilon_theta * SH, QPH))
        K.eq("r: the radial phase advances at the rate Upsilon_r", sh[1](LAM), f[1](LAM + SH))
        K.eq("theta: the polar phase advances at the rate Upsilon_theta", fn("cos", sh[2](LAM)), fn("cos", f[2](LAM + SH)))
        sh = kd.trajectory(K, (QT, QR + TWO_PI, QTH + TWO_PI, QPH))
        K.eq("r has period 2 pi in the radial phase", sh[1](LAM), f[1](LAM))
        K.eq("theta has period 2 pi in the polar phase", fn("cos", sh[2](LAM)), fn("cos", f[2](LAM)))
        K.eq("r moves from one turning point", z[1](S(0)), kd.rmin)
        K.eq("to the other in half a period", z[1](PI / o.upsilon_r), kd.rmax)
    return b


def biased(rng, i):
    """constants with special regions: small spin, E near 1, small Q, near-equal roots"""
    kind = ("complex", "low", "high", "complex", "low")[i % 5]
    for _ in range(400):
        a = edge(rng, 0.01, 0.999, 1e-3)
        E, Lz, Q = edge(rng, 0.05, 0.9999, 1e-4), edge(rng, -4.5, 4.5), edge(rng, 1e-6, 16, 1e-6)
        if kind == "high":
            a = rng.uniform(0.5, 0.999)
            Lz, Q = a * E * rng.uniform(0.2, 1.9), 10 ** rng.uniform(-5, -1.3)
        if kind == "low":
            x = edge(rng, 0.02, 1.0) * rng.choice([1, -1])
            e = edge(rng, 0.0, 0.98)
            ps = spec.separatrix(a, e, x, 1e-10)
            c = spec.constants(a, ps + (10 ** rng.uniform(-2.5, 1.5)), e, x, 20)
            if c is None or float(c[0]) >= 1:
                continue
            E, Lz, Q = (float(v) for v in c)
        re, im = geo.roots4(a, E, Lz, Q)
        rm, rp = 1 - math.sqrt(1 - a * a), 1 + math.sqrt(1 - a * a)
        if len(re) == 2 and kind == "complex":
            if im[0].imag > 1e-3 and re[0] < rm and re[1] > rp:
                return a, E, Lz, Q
        if len(re) == 4 and min(np.diff(re)) > 1e-3 and min(abs(re[1] - rm), abs(re[2] - rm)) > 1e-7 and (kind == "complex" or (re[1] > rm) == (kind == "low")):
            return a, E, Lz, Q
    return None


def polar_vcs():
    """L = 0 and four real roots: Z = (1-u)(Q - b u) with b = a^2 (1-E^2)"""
    out = []
    b = A**2 * (1 - EN**2)
    for first in ("low", "high"):
        order = [lt(R2, R1), lt(R3, R2), lt(R4, R3)] if first == "high" else [lt(R2, R1), lt(R1, R4), lt(R4, R3)]
        for nm, lo, hi, cond in (("through the poles", S(1), QV / b, lt(b, QV)), ("not reaching the poles", QV / b, S(1), lt(QV, b))):
            cs = (A, EN, S(0), QV)

            def polar(coefs, lo=lo, hi=hi):
                proportional("polar polynomial", coefs, [S(c) for c in spec.Z_coefficients(A, EN, S(0), QV)])
                return T.SymSeq([lo, hi])

            def body(K, lo=lo, hi=hi):
                k = (R1 - R2) * (R3 - R4) / ((R1 - R3) * (R2 - R4))
                yr = PI * sqrt((1 - EN**2) * (R1 - R3) * (R2 - R4)) / (2 * fn("K", k))
                bz = b * hi                   # cos(theta) = sqrt(lo) sn(sqrt(bz) lambda, lo/hi)
                for nm, v in (("", K.frequencies.plunging_mino_frequencies(*cs)), (" by keyword", K.frequencies.plunging_mino_frequencies(a=A, E=EN, L=S(0), Q=QV))):
                    K.eq("radial Mino frequency = 2 pi / Mino period of r" + nm, v[0], yr)
                    K.eq("polar Mino frequency = 2 pi / Mino period of theta" + nm, v[1], PI * sqrt(bz) / (2 * fn("K", lo / hi)))

            def smp(rng, first=first):
                a, E = rng.uniform(.1, .95), rng.uniform(.3, .95)
                r = sorted(rng.uniform(.1, 20) for _ in range(4))
                r = r[::-1] if first == "high" else [r[1], r[0], r[3], r[2]]
                bb = a * a * (1 - E * E)
                return dict(a=a, E=E, Q=bb, r1=r[0], r2=r[1], r3=r[2], r4=r[3])
            v = VC(f"polar orbit {nm}, four real roots, r3,r4 {'below' if first == 'high' else 'above'}", ["plunging_mino_frequencies"], body,
                   [lt(0, A), lt(A, 1), lt(0, EN), lt(EN, 1), lt(0, QV), lt(0, R2), cond] + order,
                   (lambda rng, nm=nm, f=smp, b_=nm[0] == "t": polar_sample(rng, f, b_)),
                   stubs={"plunging_radial_roots": lambda *k, **kw: (R1, R2, R3, R4)}, poly_roots=root_handler(cs, (), polar), concretize=polar_conc)
            v.hunting = False
            out.append(v)
    return out


def polar_sample(rng, f, through):
    d = f(rng)
    b = d["a"]**2 * (1 - d["E"]**2)
    d["Q"] = b * (rng.uniform(1.1, 50) if through else rng.uniform(.1, .9))
    return d


def polar_conc(s):
    """an orbit with L=0 and four real roots of this kind"""
    b = s["a"]**2 * (1 - s["E"]**2)
    rng = random.Random(repr(s))
    for _ in range(2000):
        a, E = rng.uniform(.1, .95), rng.uniform(.9, .999)
        Q = rng.uniform(11, 16) if s["Q"] > b else a * a * (1 - E * E) * rng.uniform(.1, .9)
        if len(geo.roots4(a, E, 0.0, Q)[0]) == 4 and geo.region(a, E, 0.0, Q) is not None:
            return dict(a=a, E=E, L=0.0, Q=Q)
    return None


class C18(Prop):
    id = "C18"
    explanation = ("plunging_radial_roots is executed on symbolic constants with numpy's root finder replaced by its contract (each configuration of "
                   "real and complex roots, each order): the polynomial it builds is proved to be the radial potential and every returned root is "
                   "identified. plunging_mino_frequencies and the orbit attributes are proved equal to 2 pi over the period integrals in closed form, "
                   "and r, theta of the trajectory proved to repeat after exactly that time.")
    assumptions = ["numpy Polynomial.roots returns all roots of the polynomial", "sn and cn run once through [0,1] and [-1,1] over K and 2K (with this the period integrals reduce to K, proved)",
                   "neither horizon is a turning point (both lie in one allowed region: proved)"]
    monitor_seconds = 45

    def vcs(self, tier):
        out = roots_vcs() + horizon_lemmas(["plunging_radial_roots"]) + reduction_vcs() + polar_vcs()
        for kd in (real_kind("low", 1), real_kind("low", -1), real_kind("high", 1), real_kind("high", -1), complex_kind()):
            def smp(rng, kd=kd):
                s = kd.sampler(rng)
                return s and dict(s, s=rng.uniform(-2, 2))
            out.append(kd.vc("frequencies", FUNCS, freq_body(kd), sampler=smp, min_obligations=10))
        return out

    def cases(self, rng, tier):
        for i in range(420 if tier == "quick" else 5000):
            if i % 2:
                q = biased(rng, i // 2)
            else:
                q = c09.sample(rng, ("low", "complex", "high")[i // 2 % 3])
                q = q and q[0]
            if q:
                yield dict(zip("aELQ", (float(v) for v in q)))
        for i in range(12):
            q = polar_conc(dict(a=.5, E=.5, Q=1.0 if i % 2 else 0.0, i=rng.random()))
            if q:
                yield q
        for a, E, Lz, Q in ((0.9, 0.94, 0.0, 12.0), (0.5, 0.9, 0.0, 3.0), (0.9, 0.8, 0.0, 1.0)):
            yield dict(a=a, E=E, L=Lz, Q=Q)

    def check(self, inp):
        a, E, Lz, Q = (float(inp[k]) for k in "aELQ")
        m = kg()
        re, im = geo.roots4(a, E, Lz, Q)
        rm = 1 - math.sqrt(1 - a * a)
        out = []
        reg = geo.region(a, E, Lz, Q)
        if reg is None:
            return []
        if len(re) == 4:
            want = (re[1], re[0], re[3], re[2]) if re[1] > rm else (re[3], re[2], re[1], re[0])
            gap = min(np.diff(re))
        else:
            gap = im[0].imag
            want = (re[0], re[1], *im)
        scale = max(abs(z) for z in want)
        tol = 1e-9 * scale * max(1.0, (scale / max(gap, 1e-9)) ** 2 * 1e-3)
        # orbits through the poles with four real roots: functions only (C09 excludes them)
        o = m["plunge"].PlungingOrbit(a, E, Lz, Q) if Lz or len(re) == 2 else None
        for nm, v in (("plunging_radial_roots", m["constants"].plunging_radial_roots(a, E, Lz, Q)),
                      ("plunging_radial_roots by keyword", m["constants"].plunging_radial_roots(Q=Q, L=Lz, E=E, a=a))):
            if len(re) == 2 and abs(complex(v[2]) - want[2]) > abs(complex(v[2]) - want[3]):
                want = (*want[:2], want[3], want[2])
            for i in range(4):
                if not abs(complex(v[i]) - want[i]) <= tol:
                    out.append(f"{nm}: r{i + 1} = {v[i]}, required {want[i]}")
            if len(re) == 2 and (np.iscomplexobj(v[0]) or np.iscomplexobj(v[1])):
                out.append(f"{nm}: the roots between which the motion takes place are not real numbers: {v[:2]}")
        if out:
            return out
        M = geo.Motion(a, E, Lz, Q, *reg)
        for nm, v in (("plunging_mino_frequencies", m["frequencies"].plunging_mino_frequencies(a, E, Lz, Q)), *([("orbit", (o.upsilon_r, o.upsilon_theta))] if o else []),
                      ("plunging_mino_frequencies by keyword", m["frequencies"].plunging_mino_frequencies(Q=Q, L=Lz, E=E, a=a))):
            for n, g, w in zip(("upsilon_r", "upsilon_theta"), v, (M.Yr, M.Yth)):
                if not abs(g - w) <= 1e-8 * max(1, tol / (1e-9 * scale)) * abs(w):
                    out.append(f"{n} of {nm}: {g!r}, 2 pi over the Mino period is {w!r}")
        self.n += 1
        if self.n % 4 == 0:
            whole = (a, E, float(round(Lz)), float(math.ceil(Q)))
            for c in ((*whole[:3], Q), (a, E, Lz, whole[3]), whole):
                reg = geo.region(*c)
                rr = geo.roots4(*c)
                # well separated roots, so that rounding in another order does not show
                if reg is not None and (len(rr[0]) == 4 and min(np.diff(rr[0])) > .05 or len(rr[0]) == 2 and rr[1][0].imag > .05):
                    out += typed([("plunging_radial_roots", m["constants"].plunging_radial_roots), ("plunging_mino_frequencies", m["frequencies"].plunging_mino_frequencies)], c, 1e-8)
        return out
    n = 0


PROP = C18()
