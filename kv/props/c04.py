"""C04 unphysical or unsupported parameters are rejected, valid ones accepted"""
from .base import *
from .orbits import *
from ..vc import opaque
from . import orbits
from .c05 import Roots, PVC

FREQ = ("r_frequency", "theta_frequency", "phi_frequency", "gamma")
CONST = ("energy", "angular_momentum", "carter_constant", "constants_of_motion")
UNKNOWN = ("foo", "", "MKS", None, "si", "m", "natural ")


def zero(x):
    return T.rel(N(x), "==")


def conj(*c):
    return T.band(*[T.TRUE if v is True else T.FALSE if v is False else v for v in c])


def valid(sa, e, sx, freq):
    """the parameter domain apart from the separatrix (standardised spin)"""
    c = conj(lt(sa, 1), le(0, e), le(e, 1), le(-1, sx), le(sx, 1))
    return conj(c, T.bnot(zero(sx)), lt(e, 1)) if freq else c


def sep_stub(sa, e, sx):
    """contract of separatrix: ValueError outside its domain, otherwise a value that depends only on its arguments, which must be the orbit's"""
    def f(a, ee, xx):
        ctx = T.CTX[0]
        if T.SymBool(T.bnot(conj(le(0, a), lt(a, 1), le(0, ee), le(ee, 1), le(-1, xx), le(xx, 1)))):
            raise ValueError("contract of separatrix")
        for n, u, v in (("a", a, sa), ("e", ee, e), ("x", xx, sx)):
            ctx.oblige(f"the separatrix is asked for the orbit's {n}", T.sub(N(u), N(v)))
        return PSEP
    return f


def accept(K, name, call, ok):
    """call returns exactly if ok holds"""
    try:
        call()
    except ValueError:
        K.true(f"{name} raises only for invalid parameters", T.bnot(ok))
        return
    K.true(f"{name} returns only for valid parameters", ok)


def body(name, freq, neg, extra=()):
    def b(K):
        a, x = (-A, -X) if neg else (A, X)
        m = K.frequencies if hasattr(K.frequencies, name) and freq else K.stable if name in ("StableOrbit", "stable_trajectory") else K.constants
        ok = conj(valid(A, E_, X, freq), lt(PSEP, P))
        with quiet(K):
            accept(K, name, lambda: getattr(m, name)(a, P, E_, x, *extra), ok)
    return b


def smp(rng):
    def pick(*special):
        return rng.choice(special) if rng.random() < .3 else rng.uniform(-.3, 1.4)
    a, e = abs(pick(0., 1.)), pick(0., 1.)
    x = rng.choice([0., 1., -1.]) if rng.random() < .35 else rng.uniform(-1.3, 1.3)
    ps = spec.separatrix(a, e, x, 1e-9) if a < 1 and 0 <= e <= 1 and abs(x) <= 1 else 6.
    return dict(a=a, e=e, x=x, psep=ps, p=ps + rng.choice([-1., -.1, .05, .5, 3., 10.]), E=rng.uniform(.5, .99), L=rng.uniform(.5, 4), Q=rng.uniform(.1, 5),
                r1=9., r2=6., r3=3., r4=.3, ur=1.2, ut=1.3, **phase_sample(rng))


def separatrix_body(neg):
    def b(K):
        a = -A if neg else A
        accept(K, "separatrix", lambda: K.constants.separatrix(a, E_, X), conj(zero(A) if neg else True, lt(A, 1), le(0, E_), le(E_, 1), le(-1, X), le(X, 1)))
    return b


def rejects(K, name, call):
    """call must not return"""
    try:
        call()
    except T.Unsupported:
        raise
    except Exception:
        K.ok(name)
        return
    K.fail(name)


def evaluate(f, *k):
    return lambda: [g(LAM) for g in [f()[i] for i in k]]


def unit_body(kd):
    def b(K):
        o = kd.build(K)
        base = object.__new__(K.orbit.Orbit)
        base.__dict__.update(o.__dict__)
        run_units(lambda n, f: rejects(K, n, f), o, base, kd, lambda *q: kd_function(K, kd, *q), LAM)
    return b


def kd_function(K, kd, q, M, du, tu):
    if kd.stable:
        return K.stable.stable_trajectory(*kd.args, q, M, du, tu)
    return K.plunge.plunging_trajectory(*kd.consts, q, M, du, tu)


def run_units(rej, o, base, kd, function, lam, masses=(1e6, 10.0)):
    M, mu = masses
    for nm, ob in (("", o), ("base class ", base)):
        for mm, uu in ((None, None), (M, None), (None, mu)):
            ob.M, ob.mu = mm, uu
            for u in ("mks", "cgs"):
                rej(f"{nm}constants_of_motion({u}) with M={mm}, mu={uu}", lambda: ob.constants_of_motion(u))
        ob.mu = mu
        ob.M = None
        if kd is None or kd.stable:
            for u in ("mks", "cgs"):
                rej(f"{nm}mino_frequencies({u}) without M", lambda: ob.mino_frequencies(u))
            for u in ("mks", "cgs", "mHz"):
                rej(f"{nm}fundamental_frequencies({u}) without M", lambda: ob.fundamental_frequencies(u))
        for u in ("mks", "cgs", "au", "km"):
            rej(f"{nm}trajectory in {u} without M", lambda: [g(lam) for g in ob.trajectory(distance_units=u)])
        for u in ("mks", "cgs", "days"):
            rej(f"{nm}trajectory in {u} without M", lambda: [g(lam) for g in ob.trajectory(time_units=u)])
        for mm in (M, None):
            ob.M = mm
            for u in UNKNOWN:
                rej(f"{nm}constants_of_motion({u!r}), M={mm}", lambda: ob.constants_of_motion(u))
                rej(f"{nm}mino_frequencies({u!r}), M={mm}", lambda: ob.mino_frequencies(u))
                rej(f"{nm}fundamental_frequencies({u!r}), M={mm}", lambda: ob.fundamental_frequencies(u))
                rej(f"{nm}r in {u!r}, M={mm}", lambda: ob.trajectory(distance_units=u)[1](lam))
                rej(f"{nm}t in {u!r}, M={mm}", lambda: ob.trajectory(time_units=u)[0](lam))
            rej(f"{nm}mino_frequencies('mHz'), M={mm}", lambda: ob.mino_frequencies("mHz"))
            rej(f"{nm}mino_frequencies('days'), M={mm}", lambda: ob.mino_frequencies("days"))
            for u in ("mHz", "km", "days"):
                rej(f"{nm}constants_of_motion({u!r}), M={mm}", lambda: ob.constants_of_motion(u))
        ob.M = ob.mu = None
    q = (0, 0, 0, 0)
    for u in ("mks", "cgs", "au", "km") + UNKNOWN:
        for mm in (None, M) if u in UNKNOWN else (None,):
            rej(f"trajectory function, r in {u!r}, M={mm}", lambda: function(q, mm, u, "natural")[1](lam))
    for u in ("mks", "cgs", "days") + UNKNOWN:
        for mm in (None, M) if u in UNKNOWN else (None,):
            rej(f"trajectory function, t in {u!r}, M={mm}", lambda: function(q, mm, "natural", u)[0](lam))


def schwarzschild_plunge(K):
    for nm, k in (("", {}), (" with phases", dict(initial_phases=PH)), (" with masses", dict(M=10, mu=1))):
        rejects(K, "PlungingOrbit with a=0" + nm, lambda: K.plunge.PlungingOrbit(0, EN, L, var("Q"), **k))
        rejects(K, "PlungingOrbit with a=0.0" + nm, lambda: K.plunge.PlungingOrbit(0.0, EN, L, var("Q"), **k))
        rejects(K, "PlungingOrbit with symbolic zero spin" + nm, lambda: K.plunge.PlungingOrbit(A, EN, L, var("Q"), **k))


class C04(Prop):
    id = "C04"
    explanation = ("Every constants and frequency function (individual, tuple, with optional arguments), stable_trajectory and StableOrbit are "
                   "executed on unconstrained real (a,p,e,x); on every path the condition under which it returned or raised ValueError is proved "
                   "to imply validity respectively invalidity. The separatrix's own domain, the unit and mass rejections on each kind of orbit and "
                   "PlungingOrbit at a=0 likewise.")
    assumptions = ["separatrix contract: ValueError outside its domain (proved here), otherwise a number (C05; known rounding failures listed there)",
                   "unknown unit names: the listed strings only (bounded)", "square roots and divisions after validation are defined (C01, C02)"]
    monitor_seconds = 45

    def vcs(self, tier):
        out = []
        RL = (R1, R2, R3, R4)

        def checked(K_neg, freq):
            ok = conj(valid(A, E_, X, False), lt(PSEP, P))

            def c(a, p, e, x):
                if not T.SymBool(ok):
                    raise ValueError("contract of constants_of_motion")
                return EN, L, var("Q")
            return c
        after = {**ELL, "stable_radial_roots": lambda *k, **kw: RL, "stable_polar_roots": lambda *k, **kw: (var("zm"), var("zp"))}
        SEP = {"separatrix": sep_stub(A, E_, X)}
        after.update(SEP)

        def smp2(rng):
            return dict(smp(rng), zm=.3, zp=4., **{"f%d" % i: rng.uniform(.5, 2) for i in range(8)})
        for neg in (False, True):
            pre = [lt(0, A) if neg else le(0, A)]

            def conc(s, neg=neg):
                g = -1 if neg else 1
                return dict(kind="params", a=s["a"] * g, p=s["p"], e=s["e"], x=s["x"] * g)
            sg = " negative spin" if neg else ""
            for n in CONST:
                for ex in [()] + ([(EN,)] if n in CONST[1:3] else []) + ([(EN, L)] if n == "carter_constant" else []):
                    out.append(VC(f"{n}{' with ' + str(len(ex)) + ' known' if ex else ''}{sg}", [n, "valid_params", "is_stable", "_standardize_params"],
                                  body(n, False, neg, ex), pre, smp2, stubs=SEP, concretize=conc, min_obligations=2, nsamples=60, max_paths=200))
            for n in FREQ:
                for ex in [(), ((EN, L, var("Q")),)] + ([(None, var("ur"), var("ut"))] if n in FREQ[2:] else []):
                    out.append(VC(f"{n}{' with ' + str(len(ex)) + ' optional' if ex else ''}{sg}", [n], body(n, True, neg, ex), pre, smp2,
                                  stubs={**after, "constants_of_motion": checked(neg, True)}, concretize=conc, min_obligations=2, nsamples=60, max_paths=200))
            for n in ("mino_frequencies", "fundamental_frequencies", "stable_trajectory"):
                out.append(VC(n + sg, [n], body(n, True, neg), pre, smp2,
                              stubs={**after, "constants_of_motion": checked(neg, True)}, concretize=conc, min_obligations=2, nsamples=60, max_paths=200))
            out.append(VC("StableOrbit" + sg, ["StableOrbit.__init__"], body("StableOrbit", True, neg), pre, smp2,
                          stubs={**after, "constants_of_motion": checked(neg, True)}, concretize=conc, min_obligations=2, nsamples=60, max_paths=200))

            def sconc(s, neg=neg):
                return dict(kind="separatrix", a=-s["a"] if neg else s["a"], e=s["e"], x=s["x"])
            out.append(PVC("separatrix domain" + sg, ["separatrix", "valid_params"], separatrix_body(neg), pre,
                           lambda rng: dict(smp(rng), **{f"proot{i}": 6. for i in range(9)}), root_scalar=Roots(), concretize=sconc, min_obligations=1, nsamples=60, max_paths=200))
        for kd in [stable_kind(1, 1, 1), real_kind("low", 1), real_kind("high", 1), complex_kind()]:
            out.append(kd.vc("units and masses", ["Orbit.constants_of_motion", "Orbit.mino_frequencies", "Orbit.fundamental_frequencies", "Orbit.trajectory",
                                                  "StableOrbit.trajectory", "PlungingOrbit.trajectory", "stable_trajectory", "plunging_trajectory"],
                             unit_body(kd), min_obligations=60))
        out.append(VC("PlungingOrbit a=0", ["PlungingOrbit.__init__"], schwarzschild_plunge, [le(0, A), le(A, 0)], lambda rng: dict(a=0., E=.9, L=2., Q=1., **phase_sample(rng)),
                      concretize=lambda s: dict(kind="plunge0", E=s["E"], L=s["L"], Q=s["Q"]), min_obligations=3))
        return out

    def cases(self, rng, tier):
        yield dict(kind="plunge0", E=.9, L=2., Q=1.)
        yield dict(kind="plunge0", E=.95, L=0., Q=0.)
        for c in concrete_cases(rng, 8, "srch"):
            yield dict(c, kind="units", orbit=c["kind"])
        for i in range(900 if tier == "quick" else 12000):
            k = i % 9
            a, e, x = rng.uniform(0.01, .99), rng.uniform(.01, .98), rng.uniform(.05, .99) * rng.choice([1, -1])
            if k == 1:
                a = rng.choice([1., 1.0000001, 1.3, 2., 7.])
            elif k == 2:
                e = rng.choice([-1e-9, -.3, 1., 1.0000001, 1.5, -1., 0.])
            elif k == 3:
                x = rng.choice([1.0000001, -1.0000001, 2., -3., 0., 1., -1.])
            elif k == 4:
                a = 0.
            elif k == 5:
                e, x = rng.choice([0., 1.]), rng.choice([0., 1., -1.])
            elif k == 6:
                a, e, x = rng.choice([.3, 1., 1.2]), rng.choice([.2, 1., 1.2]), rng.choice([.4, 0., 1.2])
            elif k == 7:
                a, x = rng.choice([0., .4]), rng.choice([0., 1., -1., .5])
            inside = a < 1 and 0 <= e <= 1 and abs(x) <= 1
            ps = spec.separatrix(a, e, x, 1e-11) if inside else 6.
            p = ps + rng.choice([-1e-4, 1e-4, -.01, .01, -.5, .5, -ps, -2 * ps, 3., 40., -ps / 2])
            if i % 4 == 3 and a:
                a, x = -a, -x
            yield dict(kind="params", a=a, p=p, e=e, x=x)
            if i % 3 == 0:
                yield dict(kind="separatrix", a=a, e=e, x=x)

    def check(self, inp):
        m = kg()
        kind = inp["kind"]
        out = []
        if kind == "plunge0":
            for f in (lambda: m["plunge"].PlungingOrbit(0, inp["E"], inp["L"], inp["Q"]), lambda: m["plunge"].PlungingOrbit(0.0, inp["E"], inp["L"], inp["Q"], M=1, mu=1)):
                with np.errstate(all="ignore"):
                    r = outcome(f)
                if r[0] == "ok":
                    out.append("PlungingOrbit(0,E,L,Q) returns an orbit")
            return out
        if kind in ("units", "plunge", "stable"):
            o = Concrete(dict(inp, kind=inp.get("orbit", kind)))
            if not o.ok or o.stable and o.args[2] == 0:
                return []
            orb = o.orbit()
            base = object.__new__(m["orbit"].Orbit)
            base.__dict__.update(orb.__dict__)
            f = m["stable"].stable_trajectory if o.stable else m["plunge"].plunging_trajectory

            def rej(n, c):
                r = outcome(c)
                if r[0] == "ok":
                    out.append(f"{n}: returned {str(r[1])[:60]}")

            class Kd:
                stable = o.stable
            run_units(rej, orb, base, Kd, lambda q, M, du, tu: f(*o.args, q, M, du, tu), 0.37)
            return out[:8]
        a, e, x = (float(inp[k]) for k in "aex")
        C, F = m["constants"], m["frequencies"]

        def must(n, f, ok):
            with np.errstate(all="ignore"):
                r = outcome(f)
            if r[0] == "ok" and not ok:
                out.append(f"{n} returned {str(r[1])[:60]} for invalid parameters")
            if r[0] == "exc" and (ok or not r[1].startswith("ValueError")):
                out.append(f"{n}: {r[1][:80]} for {'valid' if ok else 'invalid'} parameters")
            if r[0] == "ok" and ok:
                v = r[1] if isinstance(r[1], tuple) else (r[1],)
                if n[:8] != "Stable O" and any(isinstance(u, complex) or math.isnan(float(u)) for u in v if not callable(u)):
                    out.append(f"{n} returned {str(r[1])[:60]}")
        if kind == "separatrix":
            must("separatrix", lambda: C.separatrix(a, e, x), 0 <= a < 1 and 0 <= e <= 1 and abs(x) <= 1)
            return out
        p = float(inp["p"])
        sa, sx = std(a, x)
        ok = sa < 1 and 0 <= e <= 1 and abs(sx) <= 1
        if ok:
            s = spec.separatrix(sa, e, sx, 1e-11)
            if abs(p - s) < 5e-5:
                return []
            ok = p > s
        okf = ok and e < 1 and sx != 0
        cc = (.95, 3.1, 1.7)
        if ok:
            cc = tuple(float(v) for v in spec.constants(sa, p, e, sx))
        for n in CONST:
            must(n, lambda: getattr(C, n)(a, p, e, x), ok)
        must("angular_momentum with E", lambda: C.angular_momentum(a, p, e, x, cc[0]), ok)
        must("carter_constant with E", lambda: C.carter_constant(a, p, e, x, cc[0]), ok)
        must("carter_constant with E and L", lambda: C.carter_constant(a, p, e, x, cc[0], cc[1]), ok)
        for n in FREQ:
            must(n, lambda: getattr(F, n)(a, p, e, x), okf)
            must(n + " with constants", lambda: getattr(F, n)(a, p, e, x, cc), okf)
        for n in FREQ[2:]:
            must(n + " with frequencies", lambda: getattr(F, n)(a, p, e, x, None, 1.2, 1.3), okf)
            must(n + " with constants and frequencies", lambda: getattr(F, n)(a, p, e, x, cc, 1.2, 1.3), okf)
        must("mino_frequencies", lambda: F.mino_frequencies(a, p, e, x), okf)
        must("fundamental_frequencies", lambda: F.fundamental_frequencies(a, p, e, x), okf)
        must("stable_trajectory", lambda: m["stable"].stable_trajectory(a, p, e, x), okf)
        must("StableOrbit", lambda: m["stable"].StableOrbit(a, p, e, x) and 1, okf)
        return out[:8]


PROP = C04()
