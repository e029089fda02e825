"""C05 separatrix"""
from fractions import Fraction
from .base import *
from .c01 import fghd, dfghd
from .. import bernstein as bz
from ..diff import derivative
from ..vc import N, opaque
from scipy.interpolate import RectBivariateSpline

A, P, E_, X = var("a"), var("p"), var("e"), var("x")
PS = var("psep")


def det3(m):
    (a, b, c), (d, e, f), (g, h, i) = m
    return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)


def rows(a, p, e, x):
    return fghd(a, p / (1 - e), x), fghd(a, p / (1 + e), x), dfghd(a, p / (1 + e), x)


def double_root(a, p, e, x):
    """R(r1) = R(r2) = R'(r2) = 0 are linear in (E^2, E L, L^2); they have a solution with (E L)^2 = E^2 L^2 iff this vanishes
    (normalised by its trivial factor)"""
    w = rows(a, p, e, x)
    M = [[f, -2 * g, -h] for f, g, h, d in w]
    D = [d for f, g, h, d in w]

    def rep(i):
        return det3([[D[k] if j == i else M[k][j] for j in range(3)] for k in range(3)])
    y, ww, l = rep(0), rep(1), rep(2)
    return (ww * ww - y * l) * x**4 * ((e - 1) ** 8 * (e + 1) ** 12) / (64 * e**4 * p**4)


def double_root_polar(a, p, e):
    def lin(r):
        D = r * r - 2 * r + a * a
        return [(r * r + a * a) ** 2 - D * a * a, -D, D * r * r]

    def dlin(r):
        D, D1 = r * r - 2 * r + a * a, 2 * r - 2
        return [4 * r * (r * r + a * a) - D1 * a * a, -D1, D1 * r * r + 2 * r * D]
    return det3([lin(p / (1 - e)), lin(p / (1 + e)), dlin(p / (1 + e))]) * ((e - 1) ** 4 * (e + 1) ** 6) / (8 * e**2 * p**2)


class Roots:
    """contract of scipy.optimize.root_scalar with a bracket: f(root) = 0 and root in the bracket"""

    def __init__(self):
        self.calls = []

    def __call__(self, f, args=(), bracket=None, **k):
        v = var(f"proot{len(self.calls)}")
        lo, hi = bracket
        if not isinstance(args, tuple):
            args = (args,)
        self.calls.append(dict(root=v, value=f(v, *args), flo=f(S(lo), *args), fhi=f(S(hi), *args), lo=S(lo), hi=S(hi)))

        class R:
            root = v
            converged = True
        return R()


UNIT = {"a": (0, 1), "e": (0, 1), "x": (0, 1)}


def opposite(d):
    """f(lo) f(hi) <= 0 from the sign of each over all spins, eccentricities and inclinations"""
    def f(prover):
        if bz.sign(prover, N(d["flo"]), UNIT) * bz.sign(prover, N(d["fhi"]), UNIT) > 0:
            raise bz.Fail("the same sign at both ends")
        return "sign of either end by Bernstein coefficients"
    return f


def at_polar(prover, node, root):
    """sign of the separatrix polynomial at the polar separatrix: modulo the square of the polar polynomial it is x^2 a^2 times a polynomial
    of one sign on the surface where the polar polynomial vanishes"""
    r = {root["root"].n.val: (lower(root["lo"]), upper(root["hi"])), **UNIT}
    Z = N(root["value"])
    s, p = bz.poly(prover, node, UNIT | r)
    c, q = bz.poly(prover, T.mul(Z, Z), UNIT | r)
    x = [v for v in p.vars if v in ("x", "sq(x)")]
    if not x:
        raise bz.Fail("no inclination")
    at0, k = p.at_zero(x[0]), p.vars.index(x[0])
    at0 = {m[:k] + m[k + 1:]: d[0] for m, d in at0.items()}
    if q.vars != p.vars[:k] + p.vars[k + 1:]:
        raise bz.Fail("other variables")
    z2 = {m: d[0] for m, d in q.terms.items()}
    m = max(z2)
    ratio = at0.get(m, 0) / z2[m]
    for m, v in z2.items():
        y = m[:k] + (0,) + m[k:]
        d = p.terms.setdefault(y, {})
        d[0] = d.get(0, 0) - ratio * v
    p.clean()
    p.strip()
    _, z = bz.poly(prover, Z, UNIT | r)
    for want in (-1, 1):
        try:
            g, boxes = bz.decide(p, [z], want=want, max_boxes=3000)
            return s * g, boxes
        except bz.Fail:
            pass
    raise bz.Fail("sign at the polar separatrix")


def lower(b):
    v = bz.enclose(N(b))
    return v[0]


def upper(b):
    v = bz.enclose(N(b))
    return v[1]


def at_prograde(prover, node, root):
    """sign of the separatrix polynomial at the prograde equatorial separatrix p.  With q = sqrt((3-e)p - 2(1-e^2)), which runs over [1+e, 4]
    as p runs over [1+e, 6+2e], the equatorial polynomial is (1+e)^2 (3-e)^2 (a^2 - A1)(a^2 - A2), and A2 > 1, so a^2 = A1(q, e)"""
    e, v, u = T.var("e"), T.var("v"), T.var("u")
    box = {"e": (0, 1), "v": (0, 1), "x": (0, 1), "u": (0, 1)}
    if N(root["lo"]) is not T.add(T.ONE, e) or not prover.zero(T.sub(N(root["hi"]), T.add(T.const(6), e, e))).proved:
        raise bz.Fail("another bracket")
    q = T.add(T.ONE, e, T.mul(T.sub(T.const(3), e), v))
    k = T.sub(T.const(3), e)
    p = T.div(T.add(T.mul(q, q), T.mul(T.const(2), T.sub(T.ONE, T.mul(e, e)))), k)
    A1, A2 = (T.div(T.mul(p, T.power(t, 2)), T.mul(T.add(T.ONE, e), k, k)) for t in (T.sub(T.const(4), q), T.add(T.const(4), q)))
    # the ends of the range of q are the ends of the bracket, and p increases with q >= 0
    for end, val in ((0, root["lo"]), (1, root["hi"])):
        if not prover.zero(T.substitute([T.sub(p, N(val))], {v: T.const(end)})[0]).proved:
            raise bz.Fail("range of q")

    def put(n, a2):
        return T.substitute([n], {root["root"].n: p, T.var("a"): T.sqrt(a2)})[0]
    Z = put(N(root["value"]), u)
    want = T.mul(T.power(T.add(T.ONE, e), 2), T.power(k, 2), T.sub(u, A1), T.sub(u, A2))
    at = {u: T.const(Fraction(1, 3)), e: T.const(Fraction(1, 5)), v: T.const(Fraction(2, 7))}
    z0, w0 = T.substitute([Z, want], at)
    if not (T.is_const(z0) and T.is_const(w0) and z0.val):
        raise bz.Fail("no scale")
    if not prover.zero(T.sub(Z, T.mul(T.const(z0.val / w0.val), want))).proved:
        raise bz.Fail("another equatorial polynomial")
    if bz.sign(prover, T.sub(A2, T.const(Fraction(3, 2))), box) != 1:
        raise bz.Fail("second root")
    s, P = bz.poly(prover, put(node, A1), box)
    for name in ("x", "sq(x)"):
        P.divide_one_minus(name)
    g, boxes = bz.decide(P)
    return s * g, boxes


def unique(d):
    """the derivative at any root in the bracket has one sign, so there is one root"""
    def f(prover):
        v = d["root"].n
        node = derivative(N(d["value"]), v)
        try:
            g, boxes = at_prograde(prover, node, d)
            if boxes > 1:
                raise bz.Fail("not strict")
        except bz.Fail:
            r = UNIT | {v.val: (lower(d["lo"]), upper(d["hi"]))}
            (s, p), (_, z) = bz.poly(prover, node, r), bz.poly(prover, N(d["value"]), r)
            p.shift(-Fraction(1, 1000))      # strictly positive
            g, boxes = bz.decide(p, [z], want=1)
            g *= s
        return f"sign of the slope by Bernstein coefficients on {boxes} boxes"
    return f


FAR = Fraction(526, 100)


def outside(K, c, calls, far):
    """bounds used by C01: the separatrix is at least (1+e) r+, and more than 5.26 (so r2 > 2.63) for x <= 0"""
    names = {d["root"].n.id: d for d in calls}
    while c["lo"].n.id in names:
        c = names[c["lo"].n.id]
    lo = c["lo"]
    b = sqrt(1 - A * A)
    hor = (1 + E_) * (1 + b)
    if far:
        K.true("the separatrix is more than 5.26", lt(FAR, lo))
        return False
    value = T.Sym(T.substitute([N(c["value"])], {c["root"].n: N(hor)})[0])

    def proof(prover):
        # only even powers of the spin: a^2 = 1 - b^2
        v = T.var("b")
        sub = {T.var("a"): T.sqrt(T.sub(T.ONE, T.mul(v, v)))}
        h = T.mul(T.add(T.ONE, T.var("e")), T.add(T.ONE, v))
        at = T.substitute([T.substitute([N(c["value"])], {c["root"].n: h})[0], N(c["flo"])], sub)
        box = {"e": (0, 1), "b": (0, 1)}
        if bz.sign(prover, at[0], box) * bz.sign(prover, at[1], box) < 0:
            raise bz.Fail("a root inside")
        return "same sign as at the lower end of the bracket, by Bernstein coefficients"
    K.true("the equation has the same sign at (1+e) r+ as at the lower end, so its only root is not below", le(0, value * c["flo"]), proof)
    K.true("(1+e) r+ is in the bracket", le(hor, c["hi"]))
    K.true("(1+e) r+ is above the lower end", le(c["lo"], hor))
    return c


def inclined(c, lo, hi):
    def end(prover, d, node):
        if d is None:
            return bz.sign(prover, node, UNIT), 1
        try:
            return at_prograde(prover, node, d)
        except bz.Fail:
            return at_polar(prover, node, d)

    def f(prover):
        a, n = end(prover, lo, N(c["flo"]))
        b, m = end(prover, hi, N(c["fhi"]))
        if a * b > 0:
            raise bz.Fail("the same sign at both ends")
        return f"signs by Bernstein coefficients on {n} + {m} boxes"
    return f


def body(case):
    def b(K):
        rs = K.patch.root_scalar_obj
        rs.calls.clear()
        x = {"polar": S(0), "prograde": S(1), "retrograde": S(-1), "inclined+": X, "inclined-": -X}[case]
        r = K.constants.separatrix(A, E_, x)
        c = [d for d in rs.calls if d["root"] is r or isinstance(r, T.Sym) and d["root"].n is r.n]
        if not c:
            # not a root found here: the value itself has to satisfy the double-root condition
            want = double_root_polar(A, S(r), E_) if case == "polar" else double_root(A, S(r), E_, x)
            K.eq("the value returned satisfies the double-root condition", want, 0)
            return
        c = c[0]
        root = c["root"]
        if case == "polar":
            want = double_root_polar(A, root, E_)
        elif case in ("prograde", "retrograde"):
            want = double_root(A, root, E_, S(1)) / root**8
        else:
            want = double_root(A, root, E_, x)
        K.eq("the equation solved is the double-root condition", c["value"], want)
        for i, d in enumerate(rs.calls[:2] if case[0] == "i" else rs.calls):
            K.true(f"bracket {i} is ordered", le(d["lo"], d["hi"]))
            if d is not c or case in ("polar", "prograde", "retrograde"):
                K.true(f"bracket {i} encloses a root (sign change)", le(d["flo"] * d["fhi"], 0), opposite(d))
        base = outside(K, c, rs.calls, case in ("polar", "retrograde", "inclined-"))
        if base and case[0] != "i":
            slope = T.Sym(derivative(N(base["value"]), base["root"].n))
            K.true("the bracket holds one root only (the equation has one slope there)", lt(0, slope * slope), unique(base))
        if case[0] == "i":
            eq = [d for d in rs.calls if d is not c]
            names = {d["root"].n.id: d for d in eq}
            lo, hi = c["lo"], c["hi"]
            K.true("bracket bounds come from the equatorial and polar separatrices", T.TRUE if (
                (lo.n.id in names and hi.n.id in names) if case == "inclined+" else lo.n.id in names) else T.FALSE)
            for d, nm in zip(eq, ("first", "second")):
                slope = T.Sym(derivative(N(d["value"]), d["root"].n))
                K.true(f"the {nm} bracket holds one root only (the equation has one slope there)", lt(0, slope * slope), unique(d))
            K.true("bracket encloses a root (sign change)", le(c["flo"] * c["fhi"], 0),
                   inclined(c, names.get(lo.n.id), names.get(hi.n.id)))
    return b


def schwarzschild(K):
    K.eq("separatrix(0,e,x) = 6+2e", K.constants.separatrix(0, E_, X), 6 + 2 * E_)
    K.eq("separatrix(0,e,0) = 6+2e", K.constants.separatrix(0, E_, 0), 6 + 2 * E_)
    K.eq("separatrix(0,e,-1) = 6+2e", K.constants.separatrix(0, E_, -1), 6 + 2 * E_)


def predicate(K):
    sp = K.spacetime.KerrSpacetime(A)
    for nm, r in (("is_stable", K.constants.is_stable(A, P, E_, X)), ("KerrSpacetime.is_stable", sp.is_stable(P, E_, X))):
        s = opaque("sep", A, E_, X)
        K.true(f"{nm} iff p > separatrix", lt(s, P) if bool(r) else le(P, s))
    K.eq("KerrSpacetime.separatrix", sp.separatrix(E_, X), opaque("sep", A, E_, X))


class Spline:
    last = None

    def __init__(self, x, y, z, *a, **k):
        self.x, self.y, self.z, self.k = x, y, z, (a, k)
        Spline.last = self


def grid(g):
    def b(K):
        Spline.last = None
        r = K.constants.fast_separatrix(A, g)
        s = Spline.last
        if s is None or r is not s:
            raise T.Unsupported("no RectBivariateSpline")
        e, x = [float(v) for v in s.x], [float(v) for v in s.y]
        for nm, v, lo in (("e", e, 0), ("x", x, -1)):
            K.true(f"{nm} grid spans its range", T.TRUE if v[0] == lo and abs(v[-1] - 1) < 1e-12 and v == sorted(v) else T.FALSE)
            K.true(f"{nm} grid spacing", T.TRUE if max(q - p for p, q in zip(v, v[1:])) <= 2.01 * g else T.FALSE)
        K.true("shape", T.TRUE if np.shape(s.z) == (len(e), len(x)) and not s.k[0] and not s.k[1] else T.FALSE)
        for i in range(len(e)):
            for j in range(len(x)):
                K.eq(f"P[{i},{j}]", s.z[i][j], opaque("sep", A, S(e[i]), S(x[j])))
    return b


def exact_sqrt(x, *a, **k):
    """sqrt(3) as a real number rather than its double"""
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool) and x > 0 and not a and not k:
        return sqrt(S(int(x)))
    return np.sqrt(x, *a, **k)


class PVC(VC):
    def run(self, seed, deadline=None):
        rs = self.root_scalar
        import kv.patch as kp
        orig = kp.Patch.__init__

        def init(p, *a, **k):
            orig(p, *a, **k)
            p.root_scalar_obj = rs
        kp.Patch.__init__ = init
        try:
            return super().run(seed, deadline)
        finally:
            kp.Patch.__init__ = orig


class C05(Prop):
    id = "C05"
    explanation = ("separatrix is executed symbolically with root_scalar replaced by its contract; the polynomial it solves is proved equal "
                   "(after removing the trivial factor) to the double-root condition of the radial potential in every branch, every bracket "
                   "(polar, equatorial and both inclined ones) is proved to enclose a sign change for all spins, eccentricities and inclinations "
                   "(signs of polynomials on boxes by exact Bernstein coefficients, at the polar and the prograde separatrix modulo the equation "
                   "solved there), is_stable, the KerrSpacetime methods and the interpolation grid are proved.")
    assumptions = ["scipy.optimize.root_scalar with a bracket over which the sign changes returns a root in the bracket (brentq)",
                   "the polar and prograde brackets hold one root (proved); that an inclined bracket holds no second root, and that its root is the "
                   "physical one, is compared with an independent bisection on sampled parameters (bounded)",
                   "RectBivariateSpline interpolates the grid values it is given; grid spacings 1/2, 1/4, 1/5, 1/10 only (bounded)"]
    monitor_seconds = 45

    def vcs(self, tier):
        pre = [lt(0, A), lt(A, 1), lt(0, E_), lt(E_, 1), lt(0, X), lt(X, 1)]

        def smp(case):
            def f(rng):
                a, e, x = rng.uniform(.05, .95), rng.uniform(.05, .95), rng.uniform(.05, .95)
                d = dict(a=a, e=e, x=x, p=rng.uniform(2, 14))
                for i in range(4):
                    d[f"proot{i}"] = rng.uniform(2, 12)
                # roots found before the last one satisfy their equation
                if case not in ("", "polar"):
                    d["proot0"] = spec.separatrix(a, e, 0.0)
                if case == "retrograde" or case[:1] == "i":
                    d["proot1"] = spec.separatrix(a, e, 1.0)
                return d
            return f
        out = []
        for case, xv in (("polar", 0.0), ("prograde", 1.0), ("retrograde", -1.0), ("inclined+", None), ("inclined-", None)):
            def conc(s, case=case, xv=xv):
                return dict(a=s["a"], e=s["e"], x=xv if xv is not None else (s["x"] if case[-1] == "+" else -s["x"]))
            out.append(PVC(f"separatrix {case}", ["separatrix", {"polar": "_S_polar", "prograde": "_S_equatorial", "retrograde": "_S_equatorial"}.get(case, "_S")],
                           body(case), pre, smp(case), root_scalar=Roots(), replace={np.sqrt: exact_sqrt}, concretize=conc, z3_ms=4000, min_obligations=3))
        out.append(VC("separatrix a=0", ["separatrix"], schwarzschild, pre, smp(""), concretize=lambda s: dict(a=0.0, e=s["e"], x=s["x"])))
        stub = {"separatrix": lambda a, e, x: opaque("sep", a, e, x)}
        out.append(VC("stability predicate", ["is_stable", "KerrSpacetime.is_stable", "KerrSpacetime.separatrix"], predicate, pre, smp(""), stubs=stub,
                      concretize=lambda s: dict(a=s["a"], e=s["e"], x=s["x"], p=s["p"])))
        for g in (0.5, 0.25, 0.2, 0.1):
            out.append(VC(f"fast_separatrix spacing {g}", ["fast_separatrix"], grid(g), pre, smp(""), stubs=stub, replace={RectBivariateSpline: Spline},
                          concretize=lambda s: dict(a=s["a"], e=s["e"], x=s["x"], grid=0.25), min_obligations=6))
        return out

    def cases(self, rng, tier):
        n = 400 if tier == "quick" else 1500
        for i in range(n):
            a, e, x = edge(rng, 0.001, 0.999), edge(rng, 0, 1), edge(rng, 0.02, 1) * rng.choice([1, -1])
            k = i % 10
            if k == 0:
                a = 0.0
            elif k == 1:
                x = 0.0
            elif k == 2:
                x = 1.0
            elif k == 3:
                x = -1.0
            elif k == 4:
                e = float(rng.choice([0, 1]))
            elif k == 5:
                e, x = float(rng.choice([0, 1])), float(rng.choice([0, 1, -1]))
            elif k == 6:
                a, e, x = 1 - 10 ** rng.uniform(-4, -1), 1 - 10 ** rng.uniform(-4, -.7), rng.choice([-1, -1, 1]) * (1 - 10 ** rng.uniform(-5, -1))
            elif k == 7:
                a = rng.uniform(0.01, 0.1)
            d = dict(a=a, e=e, x=x)
            if i % 50 == 5:
                d["grid"] = rng.choice([0.25, 0.2])
            yield d

    def check(self, inp):
        m = kg()
        C = m["constants"]
        a, e, x = (float(inp[k]) for k in "aex")
        ref = spec.separatrix(a, e, x)
        s = C.separatrix(a, e, x)
        tol = 1e-8 if a < 0.985 else 1e-6
        out = [bad("separatrix", s, ref, tol, tol)]
        st = m["spacetime"].KerrSpacetime(a)
        out.append(bad("KerrSpacetime.separatrix", st.separatrix(e, x), s, 1e-13, 0))
        for d, want in ((1e-4, True), (0.3, True), (10.0, True), (-1e-4, False), (-0.2, False), (-1.0, False)):
            for nm, f in (("is_stable", lambda p: C.is_stable(a, p, e, x)), ("KerrSpacetime.is_stable", lambda p: st.is_stable(p, e, x))):
                if bool(f(ref + d)) != want:
                    out.append(f"{nm} at separatrix{d:+} is {not want}")
        if C.is_stable(a, s, e, x):
            out.append("is_stable at the separatrix itself")
        if inp.get("p") is not None and abs(inp["p"] - ref) > 1e-6:
            if bool(C.is_stable(a, inp["p"], e, x)) != (inp["p"] > ref):
                out.append("is_stable")
        self.n += 1
        if self.n % 5 == 0:
            w = whole_orbit(a, 9.0, e, x, self.n // 5)
            out += typed([("separatrix", C.separatrix)], (w[0], *w[2:])) + typed([("is_stable", C.is_stable)], w) + typed([("is_stable", C.is_stable)], (a, 6.0, *w[2:]))
        if inp.get("grid"):
            g = inp["grid"]
            f = C.fast_separatrix(a, g)
            ee, xx = np.linspace(0, 1, int(round(1 / g))), np.linspace(-1, 1, int(round(2 / g)))
            for u in ee:
                for v in xx:
                    out.append(bad(f"fast_separatrix({u},{v})", np.asarray(f(u, v)).item(), spec.separatrix(a, float(u), float(v)), 1e-6, 1e-6))
        return out
    n = 0


PROP = C05()
