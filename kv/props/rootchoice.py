"""Which root of the elimination quadratic the constants of motion have to take, as a lemma in three layers:
  geometry  signs of the 2x2 determinants of the coefficients of R(r) = f E^2 - 2 g E L - h L^2 - d at two radii outside the horizon
            (polynomials of one sign, by Bernstein coefficients),
  algebra   identities between those determinants, for any eight coefficients,
  signs     a chain of implications over the quantities alone; every hypothesis of a step is a fact of the layers above, a fact proved by an
            earlier step, or an obligation of the VCs on the code (`CODE`).
The last step says: the E and L that the code returns satisfy R(r1) = R(r2) = 0 and L has the sign of x."""
import copy
from fractions import Fraction
from .base import *
from .. import bernstein as bz
from ..vc import N

NAMES = "f1 g1 h1 d1 f2 g2 h2 d2".split()
B_, V, U, Z2 = var("b"), var("v"), var("u"), var("z2")


class Q:
    """the quantities of appendix B (kappa..eta, the two roots) over given coefficients; s = +1 / -1 the sign in front of the square root"""

    def __init__(q, c1, c2, s, root=None, conjugate=False):
        (q.f1, q.g1, q.h1, q.d1), (q.f2, q.g2, q.h2, q.d2) = c1, c2
        q.s = s
        q.kappa = q.d1 * q.h2 - q.h1 * q.d2
        q.rho = q.f1 * q.h2 - q.h1 * q.f2
        q.sigma = q.g1 * q.h2 - q.h1 * q.g2
        q.eps = q.d1 * q.g2 - q.g1 * q.d2
        q.eta = q.f1 * q.g2 - q.g1 * q.f2
        q.m = q.d1 * q.f2 - q.f1 * q.d2
        q.A = q.rho * q.rho + 4 * q.eta * q.sigma
        q.B = q.kappa * q.rho + 2 * q.eps * q.sigma
        q.T2 = q.sigma * (q.sigma * q.eps**2 + q.rho * q.eps * q.kappa - q.eta * q.kappa**2)
        q.T = (root or sqrt)(q.T2)
        q.J = q.eps**2 + q.kappa * q.m
        q.W = q.B + 2 * s * q.T
        q.y = q.kappa**2 / q.W if conjugate else (q.B - 2 * s * q.T) / q.A
        q.n = q.rho * q.y - q.kappa
        q.M = q.h1 * q.n + 2 * q.sigma * q.g1 * q.y
        q.E = (root or sqrt)(q.y)
        q.L0 = q.n / (2 * q.sigma * q.E)            # the angular momentum that goes with y


ABSTRACT = "f1 g1 h1 d1 f2 g2 h2 d2 kappa rho sigma eps eta m A B T y W n M E L0 L".split()


def eqz(x):
    return T.rel(N(x), "==")


def ne(x):
    return T.bnot(T.rel(N(x), "=="))


def orb(*b):
    return T.bor(*b)


class Facts:
    """name -> condition over a namespace q of quantities; the same text is an obligation of a lower layer and a hypothesis of the chain"""

    @staticmethod
    def geometry(s):
        f = {"eps^2 + kappa m > 0": lambda q: lt(0, q.eps**2 + q.kappa * q.m)}
        if s > 0:
            f["B > 0 or A < 0"] = lambda q: orb(lt(0, q.B), lt(q.A, 0))
        else:
            f["A > 0"], f["B > 0"] = lambda q: lt(0, q.A), lambda q: lt(0, q.B)
        f.update(sigma=lambda q: lt(q.sigma, 0), eps=lambda q: lt(0, q.eps), m=lambda q: lt(0, q.m), g1=lambda q: lt(0, q.g1), d1=lambda q: lt(0, q.d1))
        if s > 0:
            f["below the ergosphere kappa < 0"] = lambda q: orb(le(0, q.h1), lt(q.kappa, 0))
        else:
            f["h1"] = lambda q: lt(0, q.h1)
            f["kappa"] = lambda q: lt(0, q.kappa)
        return f

    @staticmethod
    def algebra(s):
        """expressions that vanish identically"""
        return {
            "A y = B - 2sT": lambda q: q.A * q.y - (q.kappa * q.rho + 2 * q.eps * q.sigma - 2 * s * q.T),
            "W = B + 2sT": lambda q: q.W - (q.kappa * q.rho + 2 * q.eps * q.sigma + 2 * s * q.T),
            "B": lambda q: q.B - (q.kappa * q.rho + 2 * q.eps * q.sigma),
            "A": lambda q: q.A - (q.rho * q.rho + 4 * q.eta * q.sigma),
            "y W = kappa^2": lambda q: q.y * q.W - q.kappa**2,
            "n": lambda q: q.n - (q.rho * q.y - q.kappa),
            "M": lambda q: q.M - (q.h1 * q.n + 2 * q.sigma * q.g1 * q.y),
            "n W": lambda q: q.n * q.W + 2 * q.kappa * (q.eps * q.sigma + s * q.T),
            "M W": lambda q: q.M * q.W - 2 * q.kappa * (q.d1 * q.sigma**2 - s * q.h1 * q.T),
            "T^2": lambda q: q.T**2 - q.sigma**2 * (q.eps**2 + q.kappa * q.m),
            "d1 sigma": lambda q: q.d1 * q.sigma - q.g1 * q.kappa + q.h1 * q.eps,
            "eps rho": lambda q: q.eps * q.rho - q.eta * q.kappa - q.sigma * q.m,
            "L0": lambda q: 2 * q.sigma * q.E * q.L0 - q.n,
            "M L0": lambda q: 2 * q.sigma * q.E * (q.h1 * q.L0 + q.E * q.g1) - q.M,
            "y = E^2": lambda q: q.y - q.E**2,
            "R(r1; E, L0) = 0": lambda q: q.f1 * q.E**2 - 2 * q.g1 * q.E * q.L0 - q.h1 * q.L0**2 - q.d1,
            "R(r2; E, L0) = 0": lambda q: q.f2 * q.E**2 - 2 * q.g2 * q.E * q.L0 - q.h2 * q.L0**2 - q.d2,
        }

    @staticmethod
    def code(s):
        """what the VCs on energy and angular_momentum prove (the square roots T and E: their radicands are shown to be positive)"""
        return {"T >= 0": lambda q: le(0, q.T), "E >= 0": lambda q: le(0, q.E),
                "R(r1; E, L) = 0": lambda q: eqz(q.f1 * q.E**2 - 2 * q.g1 * q.E * q.L - q.h1 * q.L**2 - q.d1),
                "s (h1 L + E g1) >= 0": lambda q: le(0, s * (q.h1 * q.L + q.E * q.g1))}

    @staticmethod
    def chain(s):
        """(fact, condition, facts it follows from)"""
        sg = [("T^2 > 0", lambda q: lt(0, q.T**2), ["T^2", "eps^2 + kappa m > 0", "sigma"]),
              ("T > 0", lambda q: lt(0, q.T), ["T^2 > 0", "T >= 0"]),
              ("T - sigma eps > 0", lambda q: lt(0, q.T - q.sigma * q.eps), ["T >= 0", "sigma", "eps"]),
              ("(T + sigma eps)(T - sigma eps)", lambda q: eqz((q.T + q.sigma * q.eps) * (q.T - q.sigma * q.eps) - q.sigma**2 * q.kappa * q.m), ["T^2"]),
              *([("kappa = 0: T = -sigma eps", lambda q: orb(ne(q.kappa), eqz(q.T + q.sigma * q.eps)),
                  ["(T + sigma eps)(T - sigma eps)", "T - sigma eps > 0"]),
                 ("kappa = 0: B < 0", lambda q: orb(ne(q.kappa), lt(q.B, 0)), ["B", "sigma", "eps"])] if s > 0 else []),
              ("y > 0", lambda q: lt(0, q.y), ["A y = B - 2sT", "B", "T > 0"] +
               (["y W = kappa^2", "W = B + 2sT", "kappa = 0: B < 0", "B > 0 or A < 0"] if s > 0 else ["A > 0", "B > 0"])),
              ("the divisor is not zero", lambda q: orb(lt(0, q.W), lt(q.A, 0)) if s > 0 else lt(0, q.A),
               ["W = B + 2sT", "B", "T > 0"] + (["B > 0 or A < 0"] if s > 0 else ["A > 0"])),
              ("E > 0", lambda q: lt(0, q.E), ["y > 0", "y = E^2", "E >= 0"]),
              ("W > 0 or kappa = 0", lambda q: orb(lt(0, q.W), eqz(q.kappa)), ["y W = kappa^2", "y > 0"])]
        if s > 0:
            sg += [
                ("kappa (T + sigma eps) > 0 or kappa = 0", lambda q: orb(lt(0, q.kappa * (q.T + q.sigma * q.eps)), eqz(q.kappa)),
                 ["(T + sigma eps)(T - sigma eps)", "T - sigma eps > 0", "m", "sigma"]),
                ("kappa = 0: A < 0", lambda q: orb(ne(q.kappa), lt(q.A, 0)),
                 ["kappa = 0: T = -sigma eps", "A y = B - 2sT", "y > 0", "sigma", "eps"]),
                ("kappa = 0: rho < 0", lambda q: orb(ne(q.kappa), lt(q.rho, 0)), ["eps rho", "eps", "m", "sigma"]),
                ("n < 0", lambda q: lt(q.n, 0), ["kappa (T + sigma eps) > 0 or kappa = 0", "kappa = 0: rho < 0", "n", "n W",
                                                 "W > 0 or kappa = 0", "y > 0"]),
                ("kappa (h1 T - d1 sigma^2) > 0 or kappa = 0",
                 lambda q: orb(lt(0, q.kappa * (q.h1 * q.T - q.d1 * q.sigma**2)), eqz(q.kappa)),
                 ["d1 sigma", "d1", "g1", "sigma", "eps", "T >= 0", "below the ergosphere kappa < 0", "kappa (T + sigma eps) > 0 or kappa = 0"]),
                ("kappa = 0: h1 > 0", lambda q: orb(ne(q.kappa), lt(0, q.h1)), ["d1 sigma", "d1", "sigma", "eps"]),
                ("M < 0", lambda q: lt(q.M, 0), ["kappa (h1 T - d1 sigma^2) > 0 or kappa = 0", "M W", "W > 0 or kappa = 0", "M", "n < 0",
                                                 "kappa = 0: h1 > 0", "sigma", "g1", "y > 0"]),
            ]
        else:
            sg += [("n > 0", lambda q: lt(0, q.n), ["kappa", "n W", "W > 0 or kappa = 0", "T - sigma eps > 0"]),
                   ("M > 0", lambda q: lt(0, q.M), ["kappa", "M W", "W > 0 or kappa = 0", "T >= 0", "h1", "d1", "sigma"])]
        nn, mm = ("n < 0", "M < 0") if s > 0 else ("n > 0", "M > 0")
        sg += [("s L0 > 0", lambda q: lt(0, s * q.L0), [nn, "L0", "sigma", "E > 0"]),
               ("s (h1 L0 + E g1) > 0", lambda q: lt(0, s * (q.h1 * q.L0 + q.E * q.g1)), [mm, "M L0", "sigma", "E > 0"]),
               ("the radicand of L is a square", lambda q: eqz(q.E**2 * (q.g1**2 + q.f1 * q.h1) - q.d1 * q.h1 - (q.h1 * q.L0 + q.E * q.g1)**2),
                ["R(r1; E, L0) = 0"]),
               ("the divisors of L", lambda q: lt(0, q.E * q.g1) if s > 0 else lt(0, q.h1), ["E > 0", "g1"] if s > 0 else ["h1"]),
               ("(L - L0)(...) = 0", lambda q: eqz((q.L - q.L0) * (q.h1 * q.L + q.E * q.g1 + q.h1 * q.L0 + q.E * q.g1)),
                ["R(r1; E, L) = 0", "R(r1; E, L0) = 0"]),
               ("L = L0", lambda q: eqz(q.L - q.L0), ["(L - L0)(...) = 0", "s (h1 L0 + E g1) > 0", "s (h1 L + E g1) >= 0"]),
               ("R(r2; E, L) = 0", lambda q: eqz(q.f2 * q.E**2 - 2 * q.g2 * q.E * q.L - q.h2 * q.L**2 - q.d2),
                ["L = L0", "R(r2; E, L0) = 0"]),
               ("sign of L", lambda q: lt(0, s * q.L), ["L = L0", "s L0 > 0"])]
        return sg


def reduced(a2, z2, r):
    """f, g / a, h x^2, d"""
    D = r * r - 2 * r + a2
    return (r * r + a2) ** 2 - D * a2 * (1 - z2), 2 * r, D - a2 * (1 - z2), D * (r * r + z2 * a2)


def dreduced(a2, z2, r):
    D, D1 = r * r - 2 * r + a2, 2 * r - 2
    return 4 * r * (r * r + a2) - D1 * a2 * (1 - z2), S(2), D1, D1 * (r * r + z2 * a2) + D * 2 * r


def one_signed(node, grow, box):
    """every coefficient in the variables grow (positive, any size) has the same sign on the box, and at least one is not zero inside it"""
    def f(prover):
        s, p = bz.poly(prover, N(node), {**box, **{v: (0, 1) for v in grow}})
        names = {n for v in grow for n in (v, f"sq({v})")}
        rest = [i for i, v in enumerate(p.vars) if v not in names]
        groups = {}
        for m, d in p.terms.items():
            key = tuple(k for i, k in enumerate(m) if i not in rest)
            groups.setdefault(key, {})[tuple(m[i] for i in rest)] = d
        signs, strict = set(), False
        for g in groups.values():
            q = copy.copy(p)
            q.vars, q.terms = [p.vars[i] for i in rest], g
            q.ranges = dict(p.ranges)
            q.strip()
            for v in list(q.vars):
                q.divide_one_minus(v)
            sg, _ = bz.decide(q)
            signs.add(sg)
            if not strict:
                q.shift(-sg * Fraction(1, 10**6))
                try:
                    strict = bz.decide(q, want=sg)[0] == sg
                except bz.Fail:
                    pass
        if len(signs) != 1 or not strict:
            raise bz.Fail("coefficients of both signs" if len(signs) > 1 else "not strict")
        return f"{len(groups)} coefficients of one sign ({s * signs.pop():+d})"
    return f


R0 = Fraction(263, 100)     # periapsis of an orbit with x < 0 lies farther out than this (C05)


def geometry(s, circular):
    """signs of the determinants for radii outside the horizon (and outside R0 when s < 0); a^2 = 1 - b^2, r+ = 1 + b"""
    def body(K):
        a2 = 1 - B_ * B_
        box, grow = {"b": (0, 1), "z2": (0, 1)}, ["v"] if circular else ["u", "v"]
        r2 = (1 + B_ if s > 0 else S(R0)) + V
        r1 = r2 if circular else r2 + U
        c1 = reduced(a2, Z2, r1)
        c2 = [-t for t in dreduced(a2, Z2, r1)] if circular else reduced(a2, Z2, r2)
        q = Q.__new__(Q)
        (q.f1, q.g1, q.h1, q.d1), (q.f2, q.g2, q.h2, q.d2) = c1, c2
        q.kappa, q.sigma = q.d1 * q.h2 - q.h1 * q.d2, q.g1 * q.h2 - q.h1 * q.g2
        q.eps, q.m = q.d1 * q.g2 - q.g1 * q.d2, q.d1 * q.f2 - q.f1 * q.d2

        def sign(name, e, sg):
            def proof(prover):
                note = one_signed(e, grow, box)(prover)
                if f"({sg:+d})" not in note:
                    raise bz.Fail("the other sign")
                return note
            K.true(name, lt(0, e) if sg > 0 else lt(e, 0), proof)
        for n, sg in (("sigma", -1), ("eps", 1), ("m", 1), ("g1", 1), ("d1", 1)):
            sign(n, getattr(q, n), sg)
        sign("f - d", q.f1 - q.d1, 1)
        if s < 0:
            sign("h1", q.h1, 1)
            sign("kappa", q.kappa, 1)
        # h and d grow outwards, so h1 < 0 gives kappa < 0
        D = reduced(a2, Z2, 1 + B_ + V)
        dD = dreduced(a2, Z2, 1 + B_ + V)
        sign2 = one_signed
        K.true("d > 0 outside the horizon", lt(0, D[3]), sign2(D[3], ["v"], box))
        K.true("h' > 0 outside the horizon", lt(0, dD[2]), sign2(dD[2], ["v"], box))
        K.true("d' > 0 outside the horizon", lt(0, dD[3]), sign2(dD[3], ["v"], box))
    return body


KK, A2 = var("k"), var("a2")


def by_ratio(a2, r2, k):
    """reduced coefficients at r2 and, times k^3, their divided differences between r1 = r2 / k and r2 (k = 1: the derivatives)"""
    t, sq, z2 = r2 * (1 + k), r2 * r2 * (1 + k * k), Z2
    c2 = (t * sq + a2 * k * k * ((1 + z2) * t + 2 * k * (1 - z2)), 2 * k**3, k * k * (t - 2 * k),
          t * sq - 2 * k * (sq + r2 * r2 * k) + a2 * k * k * ((1 + z2) * t - 2 * k * z2))
    q = Q.__new__(Q)
    (q.f1, q.g1, q.h1, q.d1), (q.f2, q.g2, q.h2, q.d2) = reduced(a2, z2, r2), c2
    q.kappa, q.rho, q.sigma = q.d1 * q.h2 - q.h1 * q.d2, q.f1 * q.h2 - q.h1 * q.f2, q.g1 * q.h2 - q.h1 * q.g2
    q.eps, q.eta, q.m = q.d1 * q.g2 - q.g1 * q.d2, q.f1 * q.g2 - q.g1 * q.f2, q.d1 * q.f2 - q.f1 * q.d2
    w = a2 * (1 - z2)                       # (a x)^2
    q.A, q.B = q.rho**2 + 4 * w * q.eta * q.sigma, q.kappa * q.rho + 2 * w * q.eps * q.sigma
    q.J, q.G = w * q.eps**2 + q.kappa * q.m, w * q.g1**2 + q.f1 * q.h1
    return q


def positive(K, name, e, box, sg=1):
    def proof(prover):
        note = one_signed(e, ["v"], box)(prover)
        if f"({sg:+d})" not in note:
            raise bz.Fail("the other sign")
        return note
    K.true(name, lt(0, sg * e), proof)


def existence(K):
    """radicands and divisors of the closed forms, for any turning points r1 >= r2 > r+ or with p > 4 (p = 2 r2 / (1 + k))"""
    unit = (0, 1)
    q = by_ratio(1 - B_ * B_, 1 + B_ + V, KK)
    box = {"b": unit, "z2": unit, "k": unit}
    positive(K, "r2 > r+: eps^2 + kappa m > 0", q.J, box)
    positive(K, "r2 > r+: g^2 + f h > 0", q.G, box)
    positive(K, "r2 > r+: f > d", q.f1 - q.d1, box)
    q = by_ratio(A2, (4 + V) * (1 + KK) / 2, KK)
    box = {"a2": unit, "z2": unit, "k": unit}
    positive(K, "p > 4: A > 0", q.A, box)
    positive(K, "p > 4: B > 0", q.B, box)
    # polar orbits and a = 0: E^2 = kappa / rho, L^2 / x^2 (or what takes its place) = m / rho
    for n in ("kappa", "rho", "m"):
        positive(K, f"p > 4: {n} (for E^2, L^2 of polar orbits)", getattr(q, n), box, -1)
    q = by_ratio(S(0), 4 + 2 * KK + V, KK)      # p = 6 + 2 e + v
    for n in ("kappa", "rho", "m"):
        positive(K, f"a = 0: {n}", getattr(q, n), {"k": unit}, -1)


def scaled(K):
    """the quantities of `existence` are those of the specification up to positive factors"""
    from .c01 import fghd, dfghd
    a, r, x, k = (var(n) for n in "arxk")
    for nm, w, c1, c2 in (("", (r / k - r) / k**3, fghd(a, r / k, x), fghd(a, r, x)),
                          ("e=0 ", S(1), fghd(a, r, x), [-t for t in dfghd(a, r, x)])):
        t = Q.__new__(Q)
        (t.f1, t.g1, t.h1, t.d1), (t.f2, t.g2, t.h2, t.d2) = c1, c2
        t.kappa, t.rho, t.sigma = t.d1 * t.h2 - t.h1 * t.d2, t.f1 * t.h2 - t.h1 * t.f2, t.g1 * t.h2 - t.h1 * t.g2
        t.eps, t.eta, t.m = t.d1 * t.g2 - t.g1 * t.d2, t.f1 * t.g2 - t.g1 * t.f2, t.d1 * t.f2 - t.f1 * t.d2
        kk = S(1) if nm else k
        q = by_ratio(a * a, r, kk)
        sub = {Z2.n: (1 - x * x).n}

        def at(e):
            return T.substitute([e.n], sub)[0] if sub else e
        K.zero(nm + "A", (t.rho**2 + 4 * t.eta * t.sigma) * x**4 - w**2 * S(at(q.A)))
        K.zero(nm + "B", (t.kappa * t.rho + 2 * t.eps * t.sigma) * x**4 - w**2 * S(at(q.B)))
        K.zero(nm + "eps^2 + kappa m", (t.eps**2 + t.kappa * t.m) * x**2 - w**2 * S(at(q.J)))


def coefficients(K):
    """the reduced coefficients are those of C01's specification up to positive factors"""
    from .c01 import fghd, dfghd
    a, r, x = var("a"), var("r"), var("x")
    for nm, u, w in (("", fghd(a, r, x), reduced(a * a, 1 - x * x, r)), ("'", dfghd(a, r, x), dreduced(a * a, 1 - x * x, r))):
        for n, c, f, g in zip("fghd", (1, a, 1 / (x * x), 1), u, w):
            K.zero(n + nm, f - c * g)


def monotone(K):
    """h1 < 0 gives kappa < 0, from the growth of h and d"""
    h1, h2, d1, d2 = (var(n) for n in ("h1", "h2", "d1", "d2"))
    ka = d1 * h2 - h1 * d2
    K.true("below the ergosphere kappa < 0", orb(le(0, h1), lt(ka, 0)))


def algebra(s, conjugate):
    """both ways to write the root y, for either divisor may vanish"""
    def body(K):
        q = Q([var(n) for n in NAMES[:4]], [var(n) for n in NAMES[4:]], s, conjugate=conjugate)
        K.zero("T^2 in either form", q.T2 - q.sigma**2 * (q.eps**2 + q.kappa * q.m))
        for n, f in Facts.algebra(s).items():
            K.zero(n, f(q))
    return body


def Q_numbers(rng, s):
    """the quantities at an orbit, to working precision"""
    import mpmath
    a, e, x = rng.uniform(.05, .95), rng.uniform(.05, .85), rng.uniform(.1, .99)
    p = spec.separatrix(a, e, s * x, 1e-9) + rng.uniform(.1, 4)
    with mpmath.workdps(60):
        a, e, x, p = (mpmath.mpf(t) for t in (a, e, x, p))
        cs = []
        for r in (p / (1 - e), p / (1 + e)):
            f, g, h, d = reduced(a * a, 1 - x * x, r)
            cs.append((f, a * g, h / x**2, d))
        q = Q(cs[0], cs[1], s, mpmath.sqrt)
        q.L = q.L0
        return {n: getattr(q, n) for n in ABSTRACT}


class Space:
    pass


def lemmas(functions):
    out = []
    box = [lt(0, B_), lt(B_, 1), lt(0, V), lt(0, U), le(0, Z2), lt(Z2, 1)]
    for s in (1, -1):
        for circ in (False, True):
            out.append(VC(f"root choice x{'>' if s > 0 else '<'}0: signs, {'e=0' if circ else 'e>0'}", functions, geometry(s, circ), box,
                          lambda r: dict(b=r.uniform(.05, .95), v=r.uniform(.1, 9), u=r.uniform(.1, 9), z2=r.uniform(0, .95)), z3_ms=50))
    out.append(VC("root choice: reduced coefficients", functions, coefficients, [lt(0, var("a")), lt(0, var("x"))],
                  lambda r: dict(a=r.uniform(.1, .9), r=r.uniform(2, 9), x=r.uniform(.1, .9))))
    out.append(VC("root choice: radicands and divisors", functions, existence,
                  [lt(0, B_), lt(B_, 1), le(0, A2), lt(A2, 1), lt(0, V), le(0, Z2), le(Z2, 1), lt(0, KK), le(KK, 1)],
                  lambda r: dict(b=r.uniform(.05, .95), a2=r.uniform(.05, .95), v=r.uniform(.1, 9), k=r.uniform(.1, .9), z2=r.uniform(0, .95)), z3_ms=50))
    out.append(VC("root choice: scaled quantities", functions, scaled, [lt(0, var("a")), lt(0, var("x")), lt(0, KK)],
                  lambda r: dict(a=r.uniform(.1, .9), r=r.uniform(2, 9), x=r.uniform(.1, .9), k=r.uniform(.1, .9))))
    h1, h2, d1, d2 = (var(n) for n in ("h1", "h2", "d1", "d2"))
    for circ in (False, True):
        # with h, d at r1 > r2 > r+; or (circular) minus the derivatives
        pre = [lt(0, d1)] + ([lt(h2, 0), lt(d2, 0)] if circ else [lt(0, d2), lt(h2, h1), lt(d2, d1)])
        out.append(VC(f"root choice: below the ergosphere, {'e=0' if circ else 'e>0'}", functions, monotone, pre,
                      (lambda r: dict(h1=r.uniform(-2, 2), h2=-r.uniform(.1, 2), d1=r.uniform(.1, 3), d2=-r.uniform(.1, 3))) if circ else
                      (lambda r: (lambda a, b: dict(h1=a, h2=a - r.uniform(.1, 2), d1=b + r.uniform(.1, 3), d2=b))(r.uniform(-2, 2), r.uniform(.1, 3)))))
    # marginally bound: E = 1 and L from R(r2) = 0
    f, g, h, d, L, w = (var(n) for n in ("f", "g", "h", "d", "L", "w"))

    def numbers(r, s):
        import mpmath
        with mpmath.workdps(60):
            f, g, h, d = (mpmath.mpf(t) for t in (r.uniform(5, 9), r.uniform(.1, 2), r.uniform(.1, 3), r.uniform(1, 5)))
            w = mpmath.sqrt(g * g + (f - d) * h)
            return dict(f=f, g=g, h=h, d=d, w=w, L=(s * w - g) / h)
    for s in (1, -1):
        out.append(VC(f"root choice x{'>' if s > 0 else '<'}0: sign of L, e=1", functions, lambda K, s=s: K.true("sign of L", lt(0, s * L)),
                      [lt(0, g), lt(d, f), ne(h), le(0, w), eqz(s * (h * L + g) - w), eqz(w * w - g * g - (f - d) * h)] + ([lt(0, h)] if s < 0 else []),
                      lambda r, s=s: numbers(r, s), z3_ms=8000))
    for s in (1, -1):
        tag = f"root choice x{'>' if s > 0 else '<'}0"
        for cj in (False, True):
            out.append(VC(f"{tag}: identities{', conjugate' * cj}", functions, algebra(s, cj), [],
                          lambda r, s=s: {n: v for n, v in Q_numbers(r, s).items() if n in NAMES}))
        known = {}
        known.update(Facts.geometry(s))
        known.update({n: (lambda q, f=f: eqz(f(q))) for n, f in Facts.algebra(s).items()})
        known.update(Facts.code(s))
        q = Space()
        for n in ABSTRACT:
            setattr(q, n, var(n))
        for name, cond, uses in Facts.chain(s):
            out.append(VC(f"{tag}: {name}", functions, (lambda K, name=name, cond=cond: K.true(name, cond(q))), [known[u](q) for u in uses],
                          lambda r, s=s: Q_numbers(r, s), z3_ms=8000))
            known[name] = cond
    for v in out:
        v.hunting = False
    return out
