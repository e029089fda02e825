"""symbolic orbits built by the package's own constructors, one per kind, and concrete ones with their reference motion"""
from .base import *
from .. import geo
from ..vc import opaque
from . import c08, c09, c10
from .c08 import A, P, E_, X, EN, L, PSEP, R1, R2, R3, R4, LAM, QT, QR, QTH, QPH, carter, spin_L, orbit_stubs, phases

PH = (QT, QR, QTH, QPH)
ZERO = (S(0), S(0), S(0), S(0))


def phase_sample(rng):
    return dict(lam=mino_time(rng), qt0=rng.uniform(-5, 5), qr0=rng.uniform(-7, 7), qth0=rng.uniform(-7, 7), qphi0=rng.uniform(-5, 5))


class quiet:
    """while an orbit is built, the four-velocity it stores is uninterpreted (its contract is C12): no case split on its signs"""

    def __init__(self, K):
        self.cls = K.spacetime.KerrSpacetime

    def __enter__(self):
        self.old = getattr(self.cls, "four_velocity", None)
        self.cls.four_velocity = lambda *k, **kw: tuple((lambda lam, n=n: opaque("u" + n, lam)) for n in "trhp")

    def __exit__(self, *exc):
        if self.old is None:
            del self.cls.four_velocity
        else:
            self.cls.four_velocity = self.old


class Kind:
    """name; pre (assumptions); sampler; stubs; poly (contract of Polynomial.roots); make(K, phases) -> orbit;
    trajectory(K, phases); consts (a,E,L,Q); rmin, rmax, zmax (turning points); conc(sample) -> concrete input"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def build(self, K, q=PH, **k):
        """the orbit object without a case split on the signs of its initial velocity"""
        with quiet(K):
            return self.make(K, q, **k)

    def vc(self, name, functions, body, **kw):
        return VC(f"{name}, {self.name}", functions, body, self.pre + kw.pop("pre", []), kw.pop("sampler", self.sampler), stubs={**self.stubs, **kw.pop("stubs", {})},
                  poly_roots=self.poly, concretize=self.conc, nsamples=4, **kw)


def stable_kind(a, e, sx, eq=False):
    Xv = S(1) if eq else X
    av, ev, xv = (A if a else S(0)), (E_ if e else S(0)), (Xv if sx > 0 else -Xv)
    Lv = spin_L(a, e, sx, Xv)
    roots = (R1, R2 if e else R1, R3, R4)
    pre = [lt(0, A), lt(A, 1), lt(0, E_), lt(E_, 1), lt(0, X), lt(X, 1), lt(PSEP, P), lt(0, EN), lt(EN, 1), lt(0, L), lt(0, P),
           lt(R2, R1), lt(R3, R2), lt(R4, R3), le(0, R4), lt(1 + sqrt(1 - A**2), R2)]
    if not a:
        pre.append(lt(6 + 2 * ev, P))           # stability without spin (C05)

    def smp(rng):
        ac = rng.uniform(.1, .95) if a else 0.0
        ec = rng.uniform(.05, .8) if e else 0.0
        x = 1.0 if eq else rng.uniform(.1, .95)
        ps = spec.separatrix(ac, ec, sx * x, 1e-9)
        p = ps + rng.uniform(.1, 8)
        c = spec.constants(ac, p, ec, sx * x)
        rr = [float(v) for v in spec.radial_roots(ac, p, ec, sx * x, c)]
        return dict(a=ac or .5, p=p, e=ec or .3, x=.5 if eq else x, psep=ps, E=float(c[0]), L=abs(float(c[1])), r1=rr[0],
                    r2=rr[1] if ec else (rr[0] + rr[2]) / 2, r3=rr[2], r4=max(rr[3], 0.0), **phase_sample(rng))

    def conc(s):
        return dict(kind="stable", a=s["a"] if a else 0.0, p=s["p"], e=s["e"] if e else 0.0, x=(1.0 if eq else s["x"]) * sx, lam=s["lam"],
                    phases=[s["qt0"], s["qr0"], s["qth0"], s["qphi0"]])
    return Kind(name=f"stable a={'a' if a else 0} e={'e' if e else 0} x{'=' if eq else '>' if sx > 0 else '<'}{sx if eq else 0}", pre=pre, sampler=smp,
                stubs=orbit_stubs(av, xv, EN, Lv, roots), poly=None, conc=conc, stable=True,
                make=lambda K, q=PH, **k: K.stable.StableOrbit(av, P, ev, xv, q, **k),
                trajectory=lambda K, q=PH: K.stable.stable_trajectory(av, P, ev, xv, q),
                consts=(av, EN, Lv, carter(av, xv, EN, Lv)), roots=roots, rmin=roots[1], rmax=R1, zmax=1 - Xv**2, args=(av, P, ev, xv),
                generic=bool(a and e))


def real_kind(first, sx):
    order = [lt(R2, R1), lt(R3, R2), lt(R4, R3)] if first == "high" else [lt(R2, R1), lt(R1, R4), lt(R4, R3)]
    pre = [lt(0, A), lt(A, 1), lt(0, EN), lt(EN, 1), lt(0, L), lt(0, c09.ZM), lt(c09.ZM, 1)] + order
    Lv = L if sx > 0 else -L

    def smp(rng):
        q = c09.sample(rng, first, sx)
        if q is None:
            return None
        (a, E, Lz, Q), o, im, M = q
        return dict(a=a, E=E, L=abs(Lz), zm=M.zm, r1=o[0], r2=o[1], r3=o[2], r4=o[3], **phase_sample(rng))

    def conc(s):
        b = s["a"] ** 2 * (1 - s["E"] ** 2)
        return dict(kind="plunge", a=s["a"], E=s["E"], L=s["L"] * sx, Q=b * s["zm"] * (1 + s["L"] ** 2 / (b * (1 - s["zm"]))), lam=s["lam"],
                    phases=[s["qt0"], s["qr0"], s["qth0"], s["qphi0"]])
    return Kind(name=f"plunge, four real roots, {'r3,r4 below' if first == 'high' else 'r3,r4 above'}, L{'>' if sx > 0 else '<'}0", pre=pre,
                sampler=smp, stubs={**ELL, "plunging_radial_roots": lambda *k, **kw: (R1, R2, R3, R4)}, poly=c09.polar_handler, conc=conc,
                stable=False, make=lambda K, q=PH, **k: K.plunge.PlungingOrbit(A, EN, Lv, c09.QQ, q, **k),
                trajectory=lambda K, q=PH: K.plunge.plunging_trajectory(A, EN, Lv, c09.QQ, q),
                consts=(A, EN, Lv, c09.QQ), roots=(R1, R2, R3, R4), rmin=R2, rmax=R1, zmax=c09.ZM, generic=True)


def complex_kind():
    return Kind(name="plunge, two complex roots", pre=c10.PRE + [T.bnot(T.rel(L.n, "=="))], sampler=c10.vc_sample, stubs=c10.STUBS, poly=None,
                conc=lambda s: dict(c10.concretize(s), kind="plunge"), stable=False,
                make=lambda K, q=PH, **k: K.plunge.PlungingOrbit(A, EN, L, c10.Q, q, **k),
                trajectory=lambda K, q=PH: K.plunge.plunging_trajectory(A, EN, L, c10.Q, q),
                consts=(A, EN, L, c10.Q), roots=c10.ROOTS, rmin=R1, rmax=R2, zmax=c10.Z1**2, generic=True)


def kinds():
    return [stable_kind(1, 1, 1), stable_kind(1, 1, -1), stable_kind(0, 1, 1), stable_kind(0, 1, -1), stable_kind(1, 0, 1), stable_kind(0, 0, -1),
            real_kind("low", 1), real_kind("low", -1), real_kind("high", 1), complex_kind()]


# ------------------------------------------------------------------ concrete orbits
def concrete_cases(rng, n, pattern="ssscssrcsshc"):
    """dicts kind, parameters, phases, via"""
    done = 0
    for i in range(n):
        k = pattern[i % len(pattern)]
        if k == "s":
            a, p, e, x = stable_orbit(rng, done, 0.93, negative=done % 6 == 5)
            done += 1
            yield dict(kind="stable", a=a, p=p, e=e, x=x, phases=phases(rng, i), via=i % 3)
        else:
            q = c09.sample(rng, {"c": "complex", "r": "low", "h": "high"}[k])
            if q is None:
                continue
            a, E, Lz, Q = q[0]
            yield dict(kind="plunge", a=a, E=E, L=Lz, Q=Q, phases=phases(rng, i), via=i % 3)


class Concrete:
    """inp -> reference motion (standardised spin) and constructors of the package's orbit"""

    def __init__(self, inp):
        self.q = [float(v) for v in inp.get("phases") or (0, 0, 0, 0)]
        self.ok = False
        self.stable = inp["kind"] == "stable"
        self.a = float(inp["a"])
        if self.stable:
            self.args = self.a, float(inp["p"]), float(inp["e"]), float(inp["x"])
            sa, sx = std(self.a, self.args[3])
            c = spec.constants(sa, self.args[1], self.args[2], sx)
            rr = c and spec.radial_roots(sa, self.args[1], self.args[2], sx, c)
            if rr is None or rr[1] - rr[2] < 1e-3:
                return
            self.consts = tuple(float(v) for v in c)
            self.sa = sa
            self.motion = lambda q: geo.stable_motion(sa, self.args[1], self.args[2], sx, q[1], q[2], c)
        else:
            self.args = self.a, float(inp["E"]), float(inp["L"]), float(inp["Q"])
            reg = geo.region(*self.args)
            if reg is None:
                return
            self.consts = self.args[1:]
            self.sa = self.a
            self.motion = lambda q: geo.Motion(*self.args, *reg, qr0=q[1], qth0=q[2])
        self.M = self.motion(self.q)
        self.ok = True

    def orbit(self, q=None, **k):
        m = kg()
        cls = m["stable"].StableOrbit if self.stable else m["plunge"].PlungingOrbit
        return cls(*self.args, *(() if q is None else (tuple(q),)), **k)

    def function(self, q=None):
        m = kg()
        f = m["stable"].stable_trajectory if self.stable else m["plunge"].plunging_trajectory
        return f(*self.args, *(() if q is None else (tuple(q),)))

    def base_orbit(self, o):
        """the same orbit through Orbit(a, initial_position, initial_velocity)"""
        return kg()["orbit"].Orbit(self.sa, o.initial_position, o.initial_velocity)

    def safe(self, lam):
        return safe_times(self.M, self.sa, lam)


# ---------------------------------------------------------------- standard reductions of the period integrals
def reduction_vcs():
    """r = rho(sn u) or rho(cn u) and cos theta = z sn u turn dr/sqrt(R) and d cos(theta)/sqrt(Z) into multiples of du; with sn increasing from 0
    to 1 over a quarter period K, and cn decreasing from 1 to -1 over 2K, the period integrals are multiples of K"""
    from ..diff import derivative
    u, c, h, aa, bb, zm, bz, be = (var(n) for n in ("u", "g", "h", "ca", "cb", "zm", "bzp", "beta"))
    pre = [lt(0, EN), lt(EN, 1), lt(R2, R1), lt(R3, R2), lt(R4, R3), lt(0, h), lt(0, zm), lt(zm, 1), lt(0, be), lt(be, bz)]

    def smp(rng):
        v = sorted((rng.uniform(.1, 20) for _ in range(4)), reverse=True)
        b = rng.uniform(.01, 1)
        return dict(zip(("r1", "r2", "r3", "r4"), v), E=rng.uniform(.3, .99), u=rng.uniform(-3, 3), g=rng.uniform(-3, 3), h=rng.uniform(.1, 3),
                    zm=rng.uniform(.05, .95), beta=b, bzp=b + rng.uniform(.1, 9))

    def d(x, v):
        return T.Sym(derivative(N(x), v.n))

    def real_roots(r1, r2, r3, r4):
        def b(K):
            k = (r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4))
            y = fn("sn", u, k) ** 2
            r = (r3 * (r1 - r2) * y - r2 * (r1 - r3)) / ((r1 - r2) * y - (r1 - r3))
            rate2 = (1 - EN**2) * (r1 - r3) * (r2 - r4) / 4
            K.zero("(dr/du)^2 rate^2 = R(r)", d(r, u) ** 2 * rate2 - (1 - EN**2) * (r1 - r) * (r - r2) * (r - r3) * (r - r4))
            for yv, want in ((0, r2), (1, r1)):
                K.zero(f"r at sn^2 = {yv}", (r3 * (r1 - r2) * yv - r2 * (r1 - r3)) / ((r1 - r2) * yv - (r1 - r3)) - want)
        return b

    def complex_roots(K):
        # R2 > R1 turning points, g +- i h the pair, A and B the distances
        hi, lo = R1, R2
        A1, B1 = sqrt((hi - c) ** 2 + h**2), sqrt((lo - c) ** 2 + h**2)
        k = ((hi - lo) ** 2 - (A1 - B1) ** 2) / (4 * A1 * B1)
        q = fn("cn", u, k)
        r = (hi * B1 + lo * A1 - q * (hi * B1 - lo * A1)) / (A1 + B1 + q * (A1 - B1))
        K.zero("(dr/du)^2 rate^2 = R(r)", d(r, u) ** 2 * A1 * B1 * (1 - EN**2) - (1 - EN**2) * (hi - r) * (r - lo) * ((r - c) ** 2 + h**2))
        for qv, want in ((1, lo), (-1, hi)):
            K.zero(f"r at cn = {qv}", (hi * B1 + lo * A1 - qv * (hi * B1 - lo * A1)) / (A1 + B1 + qv * (A1 - B1)) - want)

    def polar(K):
        s = sqrt(zm) * fn("sn", u, be * zm / bz)
        K.zero("(d cos theta/du)^2 rate^2 = Z", d(s, u) ** 2 * bz - (zm - s * s) * (bz - be * s * s))
    names = dict(min_obligations=1, nsamples=4)
    return [VC("period integral, four real roots, motion between the upper two", [], real_roots(R1, R2, R3, R4), pre, smp, **names),
            VC("period integral, four real roots, motion between the lower two", [], real_roots(R3, R4, R1, R2), pre, smp, **names),
            VC("period integral, two complex roots", [], complex_roots, pre, smp, **names),
            VC("period integral, polar motion", [], polar, pre, smp, **names)]
