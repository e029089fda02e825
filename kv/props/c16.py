"""C16 physical units"""
from fractions import Fraction
from .base import *
from ..vc import opaque

C = 299792458
G = Fraction("6.67408e-11")
MS = Fraction("1.98847e30")
DIST = {"mks": (G / C**2 * MS), "cgs": (G / C**2 * MS) * 100, "km": (G / C**2 * MS) / 1000,
        "au": (G / C**2 * MS) / Fraction("149.6e9")}
TIME = {"mks": G / C**3 * MS, "cgs": G / C**3 * MS, "days": G / C**3 * MS / 86400}
# name -> (factor, power of M)
UNITS = {
    "mass_in_kg": None,
    "distance_in_meters": (G / C**2 * MS, 1), "distance_in_cm": (G / C**2 * MS * 100, 1),
    "distance_in_km": (G / C**2 * MS / 1000, 1), "distance_in_lightyears": (G / C**2 * MS / Fraction("9.461e15"), 1),
    "distance_in_au": (G / C**2 * MS / Fraction("149.6e9"), 1),
    "time_in_seconds": (G / C**3 * MS, 1), "time2_in_seconds2": ((G / C**3 * MS) ** 2, 2),
    "time_in_days": (G / C**3 * MS / 86400, 1),
    "energy_in_joules": (C**2 * MS, 1), "energy_in_ergs": (C**2 * MS * 10**7, 1),
    "angular_momentum_in_mks": (G / C * MS**2, 2), "angular_momentum_in_cgs": (G / C * MS**2 * 10**7, 2),
    "carter_constant_in_mks": (G**2 / C**2 * MS**4, 4), "carter_constant_in_cgs": (G**2 / C**2 * MS**4 * 10**14, 4),
    "frequency_in_Hz": (C**3 / G / MS, -1), "frequency_in_mHz": (C**3 / G / MS * 1000, -1),
}
V, M, MU = var("v"), var("M"), var("mu")


def smp(rng):
    d = dict(v=rng.gauss(0, 5), M=math.exp(rng.uniform(-3, 16)), mu=math.exp(rng.uniform(-9, 9)))
    for k in ("E", "L", "Q", "yr", "yth", "yph", "G", "lam", "qt", "qr", "qth", "qph", "a", "p", "e", "x"):
        d[k] = rng.uniform(.1, .9)
    return d


def frac(q):
    return T.Sym(T.const(q))


def b_units(K):
    for n, spec_ in UNITS.items():
        f = getattr(K.units, n, None)
        if f is None:
            continue
        if n == "mass_in_kg":
            K.eq(n, f(M), M * frac(MS))
        else:
            K.eq(n, f(V, M), V * frac(spec_[0]) * M ** spec_[1])


def bare(cls, **kw):
    o = object.__new__(cls)
    for k, v in dict(initial_phases=tuple(var("q" + c) for c in ("t", "r", "th", "ph")), a=var("a"), p=var("p"), e=var("e"), x=var("x"),
                     E=var("E"), L=var("L"), Q=var("Q"), M=M, mu=MU, stable=True, upsilon_r=var("yr"), upsilon_theta=var("yth"),
                     upsilon_phi=var("yph"), gamma=var("G")).items():
        setattr(o, k, v)
    for k, v in kw.items():
        setattr(o, k, v)
    g = o.gamma
    o.omega_r, o.omega_theta, o.omega_phi = o.upsilon_r / g, o.upsilon_theta / g, o.upsilon_phi / g
    return o


def b_constants(K):
    E, L, Q = var("E"), var("L"), var("Q")
    for cls in (K.orbit.Orbit, K.stable.StableOrbit, K.plunge.PlungingOrbit):
        o = bare(cls)
        for u, (fe, fl, fq) in {"natural": (1, 1, 1), "mks": (1, 1, 1), "cgs": (10**7, 10**7, 10**14)}.items():
            r = o.constants_of_motion(u) if u != "natural" else o.constants_of_motion()
            if u == "natural":
                ref = (E, L, Q)
            else:
                # E mu c^2, L G M mu / c, Q (G M mu / c)^2 in SI then the unit factor
                ref = (E * MU * frac(MS * C**2 * fe), L * M * MU * frac(G * MS**2 / C * fl), Q * (M * MU) ** 2 * frac((G * MS**2 / C) ** 2 * fq))
            for n, x, y in zip("ELQ", r, ref):
                K.eq(f"{cls.__name__} {n} in {u}", x, y)
    r = K.constants.scale_constants((E, L, Q), M, MU)
    for n, x, y in zip("ELQ", r, (E * MU, L * MU * M, Q * MU**2 * M**2)):
        K.eq(f"scale_constants {n}", x, y)


def b_freq(K):
    yr, yth, yph, g = var("yr"), var("yth"), var("yph"), var("G")
    o = bare(K.stable.StableOrbit)
    s = frac(G / C**3 * MS) * M
    for u, k in (("natural", None), ("mks", 1), ("cgs", 1)):
        r = o.mino_frequencies(u) if k else o.mino_frequencies()
        ref = (yr, yth, yph, g) if k is None else (yr * s, yth * s, yph * s, g * s * s)
        for n, x, y in zip(("r", "theta", "phi", "gamma"), r, ref):
            K.eq(f"mino {n} {u}", x, y)
    for u, k in (("natural", None), ("mks", 1), ("cgs", 1), ("mHz", 1000)):
        r = o.fundamental_frequencies(u) if k else o.fundamental_frequencies()
        for n, x, y in zip(("r", "theta", "phi"), r, (yr, yth, yph)):
            K.eq(f"fundamental {n} {u}", x, y / g if k is None else y / g / s * k)


def sols(pre):
    def f(*a):
        return tuple((lambda q, n=n: opaque(pre + n, q)) for n in ("x", "t", "phi"))
    return f


def b_traj(which):
    def b(K):
        lam = var("lam")
        ph = tuple(var("q" + c) for c in ("t", "r", "th", "ph"))
        args = (var("a"), var("p"), var("e"), var("x")) if which == "stable" else (var("a"), var("E"), var("L"), var("Q"))
        f = K.stable.stable_trajectory if which == "stable" else K.plunge.plunging_trajectory
        cls = K.stable.StableOrbit if which == "stable" else K.plunge.PlungingOrbit
        nat = [h(lam) for h in f(*args, ph)]
        runs = [("default units with M", f(*args, ph, M), 1, 1)]
        for du in ["natural"] + list(DIST):
            for tu in ["natural"] + list(TIME):
                kd = 1 if du == "natural" else frac(DIST[du]) * M
                kt = 1 if tu == "natural" else frac(TIME[tu]) * M
                runs.append((f"{du},{tu}", f(*args, ph, M, du, tu), kd, kt))
                if (du, tu) in (("km", "days"), ("natural", "mks"), ("au", "natural"), ("cgs", "cgs")):
                    o = bare(cls, stable=which == "stable")
                    runs.append((f"{cls.__name__}.trajectory {du},{tu}", o.trajectory(None, du, tu), kd, kt))
                    o = bare(K.orbit.Orbit, stable=which == "stable")
                    runs.append((f"Orbit.trajectory {du},{tu}", o.trajectory(None, du, tu), kd, kt))
                    runs.append((f"Orbit.trajectory keywords {du},{tu}", o.trajectory(distance_units=du, time_units=tu, initial_phases=ph), kd, kt))
        for nm, tr, kd, kt in runs:
            t, r, th, phi = [h(lam) for h in tr]
            K.eq(f"t in {nm}", t, nat[0] * kt)
            K.eq(f"r in {nm}", r, nat[1] * kd)
            K.eq(f"theta in {nm}", th, nat[2])
            K.eq(f"phi in {nm}", phi, nat[3])
    return b


def roots_stub(kind):
    def f(*a):
        if kind == "complex":
            return (S(T.var("a")) * 0 + 1, S(5), T.SymC(T.const(1), T.const(-2)), T.SymC(T.const(1), T.const(2)))
        return (S(1), S(5), S(3), S(2))
    return f


STUBS = dict(radial_solutions=sols("r_"), polar_solutions=sols("th_"), plunging_radial_solutions_complex=sols("cr_"),
             plunging_polar_solutions=sols("cth_"), mino_frequencies=lambda *a: (var("yr"), var("yth"), var("yph"), var("G")),
             _mino_frequencies_from_constants=lambda *a: (var("yr"), var("yth"), var("yph"), var("G")),
             constants_of_motion=lambda *a: (var("E"), var("L"), var("Q")), plunging_mino_frequencies=lambda *a: (var("yr"), var("yth")),
             stable_radial_roots=lambda *a: (S(10), S(6), S(3), S(1)), stable_polar_roots=lambda *a: (frac(Fraction(1, 2)), S(20)))


def poly(c):
    return T.SymSeq([frac(Fraction(1, 2)), S(20)])


def refused(call, only=ValueError):
    """call raises, at once or when the functions it returns are evaluated"""
    try:
        r = call()
        for f in r if isinstance(r, tuple) else ():
            if callable(f):
                f(0.3)
    except only:
        return True
    except Exception:
        return False
    return False


def refusals(m, bare_, args):
    """(name, call, exception) of conversions that cannot be made; bare_(class, stable, **attributes) makes orbits, args(stable) parameters of the functions"""
    S_, P_, O_ = m["stable"].StableOrbit, m["plunge"].PlungingOrbit, m["orbit"].Orbit
    ph = (0.4, 1.1, -0.3, 0.9)
    for cls, stable in ((S_, True), (P_, False), (O_, True), (O_, False)):
        n = f"{cls.__name__} {'stable' if stable else 'plunging'}"
        for u in ("mks", "cgs"):
            for miss in (dict(M=None), dict(mu=None), dict(M=None, mu=None)):
                yield f"{n}.constants_of_motion({u}) with {miss}", lambda: bare_(cls, stable, **miss).constants_of_motion(u), ValueError
        yield f"{n}.constants_of_motion(unknown)", lambda: bare_(cls, stable).constants_of_motion("furlong"), Exception
        for du, tu in [(d, "natural") for d in DIST] + [("natural", t) for t in TIME] + [("km", "days")]:
            yield f"{n}.trajectory({du},{tu}) without M", lambda: bare_(cls, stable, M=None).trajectory(None, du, tu), ValueError
        for du, tu in (("furlong", "natural"), ("natural", "fortnight")):
            yield f"{n}.trajectory({du},{tu})", lambda: bare_(cls, stable).trajectory(None, du, tu), Exception
    for u in ("mks", "cgs", "mHz"):
        yield f"fundamental_frequencies({u}) without M", lambda: bare_(S_, True, M=None).fundamental_frequencies(u), ValueError
        if u != "mHz":
            yield f"mino_frequencies({u}) without M", lambda: bare_(S_, True, M=None).mino_frequencies(u), ValueError
    yield "fundamental_frequencies(unknown)", lambda: bare_(S_, True).fundamental_frequencies("furlong"), Exception
    yield "mino_frequencies(unknown)", lambda: bare_(S_, True).mino_frequencies("furlong"), Exception
    for f, stable in ((m["stable"].stable_trajectory, True), (m["plunge"].plunging_trajectory, False)):
        for du, tu in [(d, "natural") for d in DIST] + [("natural", t) for t in TIME] + [("km", "days")]:
            yield f"{f.__name__}({du},{tu}) without M", lambda: f(*args(stable), ph, None, du, tu), ValueError
            yield f"{f.__name__}({du},{tu}), no mass given", lambda: f(*args(stable), distance_units=du, time_units=tu), ValueError
        for du, tu in (("furlong", "natural"), ("natural", "fortnight")):
            yield f"{f.__name__}({du},{tu})", lambda: f(*args(stable), ph, 2.0, du, tu), Exception


def b_refuse(K):
    m = dict(stable=K.stable, plunge=K.plunge, orbit=K.orbit)

    def args(stable):
        return (var("a"), var("p"), var("e"), var("x")) if stable else (var("a"), var("E"), var("L"), var("Q"))
    for n, call, exc in refusals(m, lambda cls, stable, **k: bare(cls, stable=stable, **k), args):
        K.true(n + " is refused", refused(call, exc))


class C16(Prop):
    id = "C16"
    explanation = ("Every conversion function, Orbit.constants_of_motion, mino_frequencies, fundamental_frequencies and the three "
                   "trajectory functions are executed with symbolic values, masses and (opaque) solutions for every unit name; each "
                   "result is proved equal to the natural value times the exact rational conversion factor.")
    assumptions = ["the numerical values of c, G, solar mass, au and light year are the package's constants",
                   "in the trajectory VCs radial/polar solutions, roots and frequencies are uninterpreted (their contracts are "
                   "proved under C02, C07-C10)"]

    def vcs(self, tier):
        pre = [lt(0, M), lt(0, MU)] + [T.band(lt(0, var(k)), lt(var(k), 1)) for k in ("a", "E", "yr", "yth", "G", "L", "Q", "p", "e", "x")]
        conc = self.conc
        out = [VC("units", list(UNITS), b_units, pre, smp, concretize=conc, min_obligations=17),
               VC("constants_of_motion", ["Orbit.constants_of_motion", "scale_constants"], b_constants, pre, smp, concretize=conc, min_obligations=20),
               VC("frequencies", ["StableOrbit.mino_frequencies", "StableOrbit.fundamental_frequencies"], b_freq, pre, smp, concretize=conc, min_obligations=20),
               VC("stable trajectory", ["stable_trajectory", "StableOrbit.trajectory", "Orbit.trajectory"], b_traj("stable"), pre, smp, stubs=STUBS,
                  poly_roots=poly, concretize=conc, min_obligations=60)]
        for k in ("complex", "real"):
            out.append(VC(f"refused conversions, {k} roots", ["constants_of_motion", "mino_frequencies", "fundamental_frequencies", "stable_trajectory", "plunging_trajectory",
                                                 "Orbit.trajectory", "StableOrbit.trajectory", "PlungingOrbit.trajectory"], b_refuse, pre, smp,
                          stubs=dict(STUBS, plunging_radial_roots=roots_stub(k)), poly_roots=poly, concretize=conc, min_obligations=100))
        for k, fn_ in (("complex", "_complex_plunge_trajectory"), ("real", "_real_plunge_trajectory")):
            out.append(VC(f"{k} plunge trajectory", ["plunging_trajectory", fn_, "PlungingOrbit.trajectory", "Orbit.trajectory"], b_traj("plunge"), pre, smp,
                          stubs=dict(STUBS, plunging_radial_roots=roots_stub(k)), poly_roots=poly, concretize=conc, min_obligations=60))
        return out

    def conc(self, s):
        return dict(kind="all", v=s["v"], M=s["M"], mu=s["mu"], orbit="stable", lam=0.7)

    def cases(self, rng, tier):
        n = 12 if tier == "quick" else 80
        for i in range(n):
            s = smp(rng)
            yield dict(kind="all", v=rng.choice([s["v"], 1, 2.5, 1e6]), M=s["M"] if i % 4 else rng.choice([1, 10, 1e6]), mu=s["mu"],
                       orbit=["stable", "complex", "real"][i % 3], lam=mino_time(rng, 4))

    ORB = {"stable": (0.9, 8.0, 0.3, 0.6), "complex": (0.9, 0.94, 0.5, 12.0), "real": (0.9, 0.94, 2.0, 6.0)}

    def check(self, inp):
        m = kg()
        u = m["units"]
        out = []
        v, Mv, muv, lam = inp["v"], inp["M"], inp["mu"], inp["lam"]
        for n, s in UNITS.items():
            f = getattr(u, n, None)
            if f is None:
                out.append(f"units.{n} is missing")
            elif s is None:
                out.append(bad(n, f(Mv), Mv * float(MS), 1e-12, 0))
            else:
                out.append(bad(n, f(v, Mv), v * float(s[0]) * Mv ** s[1], 1e-12, 0))
        for n, s in UNITS.items():
            f = getattr(u, n, None)
            if f:
                out += typed([(n, f)], (math.ceil(Mv),) if s is None else (math.ceil(v), math.ceil(Mv)))
        arr = np.array([v, 2 * v])
        out.append(bad("distance_in_km(array)", u.distance_in_km(arr, Mv)[1], 2 * v * float(UNITS["distance_in_km"][0]) * Mv, 1e-12, 0))
        par = self.ORB[inp["orbit"]]
        stable = inp["orbit"] == "stable"
        if stable:
            f = m["stable"].stable_trajectory
            o = m["stable"].StableOrbit(*par, M=Mv, mu=muv)
        else:
            f = m["plunge"].plunging_trajectory
            o = m["plunge"].PlungingOrbit(*par, M=Mv, mu=muv)
        ph = (0.4, 1.1, -0.3, 0.9)
        nat = [h(lam) for h in f(*par, ph)]
        for du in ["natural"] + list(DIST):
            for tu in ["natural"] + list(TIME):
                kd = 1 if du == "natural" else float(DIST[du]) * Mv
                kt = 1 if tu == "natural" else float(TIME[tu]) * Mv
                for nm, tr in (("function", f(*par, ph, Mv, du, tu)), ("method", o.trajectory(ph, du, tu))):
                    for c, h, y in zip(("t", "r", "theta", "phi"), tr, (nat[0] * kt, nat[1] * kd, nat[2], nat[3])):
                        out.append(bad(f"{nm} {c} in {du},{tu}", h(lam), y, 1e-10, 0))
        def made(cls, st, **k):
            if cls is m["orbit"].Orbit:
                b = object.__new__(cls)
                b.__dict__.update(made(m["stable"].StableOrbit if st else m["plunge"].PlungingOrbit, st, **k).__dict__)
                return b
            k = dict(dict(M=Mv, mu=muv), **k)
            return cls(*(self.ORB["stable"] if st else par if not stable else self.ORB["real"]), **k)
        for nm, call, exc in refusals(m, made, lambda st: self.ORB["stable"] if st else par if not stable else self.ORB["complex"]):
            if not refused(call, exc):
                out.append(f"{nm}: not refused")
        E, L, Q = o.E, o.L, o.Q
        for un, (fe, fl) in {"mks": (1, 1), "cgs": (1e7, 1e7)}.items():
            r = o.constants_of_motion(un)
            ref = (E * muv * float(MS) * C**2 * fe, L * Mv * muv * float(G * MS**2 / C) * fl, Q * (Mv * muv * float(G * MS**2 / C) * fl) ** 2)
            for n, x, y in zip("ELQ", r, ref):
                out.append(bad(f"{n} in {un}", x, y, 1e-10, 0))
        out += [bad("natural " + n, x, y) for n, x, y in zip("ELQ", o.constants_of_motion(), (E, L, Q))]
        if stable:
            s = float(G / C**3 * MS) * Mv
            y = o.mino_frequencies()
            for un in ("mks", "cgs"):
                for x, z, k in zip(o.mino_frequencies(un), y, (s, s, s, s * s)):
                    out.append(bad(f"mino frequency in {un}", x, z * k, 1e-10, 0))
            for un, k in (("natural", s), ("mks", 1), ("cgs", 1), ("mHz", 1000)):
                for x, z in zip(o.fundamental_frequencies(un), y):
                    out.append(bad(f"fundamental frequency in {un}", x, z / y[3] / s * k, 1e-10, 0))
        return out


PROP = C16()
