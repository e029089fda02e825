"""Sign of a polynomial on a box, exactly: the coefficients in the Bernstein basis bound the polynomial, the box is halved until they
all have one sign (or until a polynomial known to vanish there cannot).  Integer arithmetic throughout; constants such as sqrt(3) are kept
as a basis of the coefficients, an exact zero being recognised by its coordinates and any other sign taken from rational bounds."""
from fractions import Fraction
from math import comb, gcd, isqrt
import numpy as np
from . import terms as T
from .algebra import mono_items, BITS, MASK


class Fail(Exception):
    pass


def sqrt_bounds(q, bits=400):
    """rational lower and upper bound of sqrt(q), q a nonnegative Fraction"""
    n = (q.numerator << (2 * bits)) // q.denominator
    r = isqrt(n)
    return Fraction(r, 1 << bits), Fraction(r + 1, 1 << bits)


class Poly:
    """polynomial in named box variables with coefficients over a basis of real constants; made from a node by the algebra's normal form"""

    def __init__(self, alg, poly, ranges):
        self.vars, self.consts = [], []
        self.basis = {}                     # constant monomial -> index
        self.terms = {}                     # (exponents of the box variables) -> {basis index: Fraction}
        kinds = {}
        subs = {}                           # atom of sqrt(c + k v) -> (v, c, k)
        used = set()
        for m in poly:
            used |= {i for i, _ in mono_items(m)}
        bounds = {}

        def const_bounds(i):
            if i not in bounds:
                kind, obj = alg.atoms[i]
                if kind != "sqrt":
                    raise Fail(f"{T.show(obj)[:60]} is no constant")
                lo, hi = Fraction(0), Fraction(0)
                for m, c in obj.items():
                    l, h = Fraction(c), Fraction(c)
                    for j, e in mono_items(m):
                        bl, bh = const_bounds(j)
                        l, h = (l * bl**e, h * bh**e) if c > 0 else (l * bh**e, h * bl**e)
                    lo, hi = lo + l, hi + h
                if lo < 0:
                    raise Fail("constant under a root")
                bounds[i] = sqrt_bounds(lo)[0], sqrt_bounds(hi)[1]
            return bounds[i]

        def is_const(i):
            kind, obj = alg.atoms[i]
            return kind == "sqrt" and all(is_const(j) for m in obj for j, _ in mono_items(m))
        name = {}
        for i in used:
            kind, obj = alg.atoms[i]
            if kind == "node" and obj.op == "var" and obj.val in ranges:
                name[i] = obj.val
            elif is_const(i):
                const_bounds(i)
            elif kind == "sqrt":
                # a root of a linear polynomial of one variable replaces that variable
                lin = {}
                for m, c in obj.items():
                    lin[tuple(mono_items(m))] = c
                vs = [k for k in lin if k]
                if len(vs) != 1 or len(vs[0]) != 1 or vs[0][0][1] != 1 or alg.atoms[vs[0][0][0]][1].op != "var":
                    raise Fail("root of a polynomial")
                v = alg.atoms[vs[0][0][0]][1].val
                if v not in ranges or v in subs:
                    raise Fail("root outside the box")
                subs[v] = (i, Fraction(lin.get((), 0)), Fraction(lin[vs[0]]))
            else:
                raise Fail("not a polynomial of the box variables")
        self.ranges = dict(ranges)
        for v, (i, c, k) in subs.items():
            lo, hi = sorted((c + k * Fraction(ranges[v][0]), c + k * Fraction(ranges[v][1])))
            if lo < 0:
                raise Fail("negative under a root")
            name[i] = "sqrt:" + v
            # outward to coarse rationals
            l, h = sqrt_bounds(lo, 20)[0], sqrt_bounds(hi, 20)[1]
            if sqrt_bounds(lo, 20)[0]**2 == lo:
                l = sqrt_bounds(lo, 20)[0]
            if (h - Fraction(1, 1 << 20))**2 == hi:
                h -= Fraction(1, 1 << 20)
            self.ranges["sqrt:" + v] = (l, h)
        self.vars = sorted({("sqrt:" + n if n in subs else n) for n in name.values()})
        pos = {n: k for k, n in enumerate(self.vars)}
        for m, c in poly.items():
            ex = [0] * len(self.vars)
            cm = 0
            rest = []
            for i, e in mono_items(m):
                if i in name:
                    if name[i] in subs:
                        rest.append((name[i], e))
                    else:
                        ex[pos[name[i]]] += e
                else:
                    cm |= e << (BITS * i)
            parts = [(tuple(ex), Fraction(c))]
            for v, e in rest:
                i, c0, k = subs[v]
                new = []
                for x, cc in parts:         # ((s^2 - c0)/k)^e
                    for j in range(e + 1):
                        y = list(x)
                        y[pos["sqrt:" + v]] += 2 * j
                        new.append((tuple(y), cc * comb(e, j) * (-c0)**(e - j) / k**e))
                parts = new
            b = self.basis.setdefault(cm, len(self.basis))
            for x, cc in parts:
                d = self.terms.setdefault(x, {})
                d[b] = d.get(b, 0) + cc
        self.bb = [(Fraction(1), Fraction(1))] * len(self.basis)
        for cm, b in self.basis.items():
            lo = hi = Fraction(1)
            for i, e in mono_items(cm):
                lo, hi = lo * bounds[i][0]**e, hi * bounds[i][1]**e
            self.bb[b] = (lo, hi)
        self.clean()

    def clean(self):
        self.terms = {x: {b: c for b, c in d.items() if c} for x, d in self.terms.items()}
        self.terms = {x: d for x, d in self.terms.items() if d}

    def square_variables(self):
        """v^2 -> v where a variable occurs only evenly and its range is nonnegative"""
        for k, v in enumerate(self.vars):
            if not v.startswith("sq(") and all(x[k] % 2 == 0 for x in self.terms) and any(x[k] for x in self.terms) and self.ranges[v][0] >= 0:
                self.terms = {x[:k] + (x[k] // 2,) + x[k + 1:]: d for x, d in self.terms.items()}
                self.vars[k] = f"sq({v})"
                self.ranges[f"sq({v})"] = (Fraction(self.ranges[v][0])**2, Fraction(self.ranges[v][1])**2)

    def strip(self):
        """divide by the nonnegative variables common to all terms; returns the factors"""
        out = []
        for k, v in enumerate(self.vars):
            m = min((x[k] for x in self.terms), default=0)
            if m and self.ranges[v][0] >= 0:
                self.terms = {x[:k] + (x[k] - m,) + x[k + 1:]: d for x, d in self.terms.items()}
                out.append((v, m))
        return out

    def divide_one_minus(self, v):
        """divide by (1 - v) while that is a factor and the range of v is [0, 1]"""
        if v not in self.vars or tuple(self.ranges[v]) != (0, 1):
            return
        k = self.vars.index(v)
        while self.terms:
            rows = {}
            for x, d in self.terms.items():
                for b, c in d.items():
                    rows.setdefault((x[:k] + x[k + 1:], b), {})[x[k]] = c
            if any(sum(r.values()) for r in rows.values()):
                return
            new = {}
            for (y, b), r in rows.items():
                acc = Fraction(0)
                for i in range(max(r)):             # q_i = p_i + q_(i-1)
                    acc += r.get(i, 0)
                    if acc:
                        new.setdefault(y[:k] + (i,) + y[k:], {})[b] = acc
            self.terms = new

    def shift(self, c):
        if 0 not in self.basis:
            raise Fail("no rational coefficients")
        d = self.terms.setdefault((0,) * len(self.vars), {})
        d[self.basis[0]] = d.get(self.basis[0], 0) + c
        self.clean()

    def at_zero(self, v):
        k = self.vars.index(v)
        return {x: d for x, d in self.terms.items() if not x[k]}

    def tensor(self, names):
        """integer Bernstein coefficients on the whole box, axes in the order of names, last axis the constants"""
        deg = [0] * len(names)
        col = [names.index(v) for v in self.vars]
        for x in self.terms:
            for k, e in zip(col, x):
                deg[k] = max(deg[k], e)
        t = np.zeros([d + 1 for d in deg] + [max(1, len(self.basis))], dtype=object)
        for x, d in self.terms.items():
            i = [0] * len(names)
            for k, e in zip(col, x):
                i[k] = e
            for b, c in d.items():
                t[tuple(i) + (b,)] += c
        for k, n in enumerate(names):
            d = deg[k]
            if not d:
                continue
            lo, hi = (Fraction(z) for z in self.ranges[n])
            h = hi - lo
            # power basis of lo + h u, then Bernstein basis
            M = np.zeros((d + 1, d + 1), dtype=object)
            for i in range(d + 1):
                for j in range(i + 1):
                    M[j, i] = comb(i, j) * lo**(i - j) * h**j
            B = np.zeros((d + 1, d + 1), dtype=object)
            for j in range(d + 1):
                for i in range(j, d + 1):
                    B[i, j] = Fraction(comb(i, j), comb(d, j))
            t = np.moveaxis(np.tensordot(B.dot(M), t, axes=(1, k)), 0, k)
        den = 1
        for c in t.flat:
            c = Fraction(c)
            den = den * c.denominator // gcd(den, c.denominator)
        return np.vectorize(lambda c: int(c * den), otypes=[object])(t)


def halves(t, k):
    """de Casteljau at 1/2 along axis k, both halves scaled by the same power of two"""
    t = np.moveaxis(t, k, 0)
    n = t.shape[0] - 1
    if n == 0:
        return np.moveaxis(t, 0, k), np.moveaxis(t, 0, k)
    rows = [t]
    for i in range(n):
        rows.append(rows[-1][:-1] + rows[-1][1:])
    L = np.stack([rows[i][0] << (n - i) for i in range(n + 1)])
    R = np.stack([rows[n - i][-1] << i for i in range(n + 1)])
    return np.moveaxis(L, 0, k), np.moveaxis(R, 0, k)


class Signs:
    def __init__(self, bb):
        self.bits = 300
        self.lo = [(b[0].numerator << self.bits) // b[0].denominator for b in bb]
        self.hi = [-((-b[1].numerator << self.bits) // b[1].denominator) for b in bb]
        self.one = len(bb) <= 1 and (not bb or bb[0][0] == bb[0][1])

    def extremes(self, t):
        """(lower bound of the smallest coefficient, upper bound of the largest), exact zeros counting as zero"""
        if self.one:
            f = t.ravel()
            return f.min(), f.max()
        mn, mx = [], []
        for r in t.reshape(-1, t.shape[-1]):
            if not any(r):
                l = h = 0
            else:
                l = sum(c * (self.lo[b] if c > 0 else self.hi[b]) for b, c in enumerate(r))
                h = sum(c * (self.hi[b] if c > 0 else self.lo[b]) for b, c in enumerate(r))
            mn.append(l)
            mx.append(h)
        return min(mn), max(mx)


def shrink(t):
    """divide by a common power of two"""
    g = 0
    for c in t.flat:
        if c:
            g |= c & -c
            if g & 1:
                return t
    if g > 1:
        s = (g & -g).bit_length() - 1
        return t >> s
    return t


def decide(target, zeros=(), max_boxes=4000, want=None):
    """+1 / -1 when target is >= 0 / <= 0 everywhere on its box where all of zeros vanish; raises Fail otherwise"""
    names = sorted(set(target.vars).union(*[z.vars for z in zeros]))
    for z in zeros:
        for v in z.vars:
            if v not in target.ranges:
                target.ranges[v] = z.ranges[v]
            if target.ranges[v] != z.ranges[v]:
                raise Fail("different boxes")
    tt = target.tensor(names)
    zt = [z.tensor(names) for z in zeros]
    st, sz = Signs(target.bb), [Signs(z.bb) for z in zeros]
    stack = [(tt, zt, 0)]
    sign, seen = want, 0
    while stack:
        t, zs, depth = stack.pop()
        seen += 1
        if seen > max_boxes:
            raise Fail(f"more than {max_boxes} boxes")
        out = False
        for z, s in zip(zs, sz):
            l, h = s.extremes(z)
            if l > 0 or h < 0:
                out = True
                break
        if out:
            continue
        lo, hi = st.extremes(t)
        if lo >= 0 and sign != -1 or hi <= 0 and sign != 1:
            if not (lo == 0 and hi == 0):
                sign = 1 if lo >= 0 else -1
            continue
        if (lo >= 0 or hi <= 0) and not zs:
            raise Fail("both signs occur")
        # split where the undecided polynomial varies most
        best, axis = -1.0, 0
        for k in range(len(names)):
            var = 0.0
            for q in [t] + zs:
                if q.shape[k] == 1:
                    continue
                m = int(max(abs(q.min()), abs(q.max()))) or 1
                sh = max(0, m.bit_length() - 60)
                f = (q >> sh).astype(float)
                var += np.abs(np.diff(f, axis=k)).sum(axis=k).max() / (m >> sh)
            if var > best:
                best, axis = var, k
        a, b = halves(t, axis)
        za = [halves(z, axis) for z in zs]
        stack.append((shrink(a), [shrink(q[0]) for q in za], depth + 1))
        stack.append((shrink(b), [shrink(q[1]) for q in za], depth + 1))
    return sign or 1, seen


def enclose(node):
    """rational bounds of a constant node"""
    if node.op == "const":
        return node.val, node.val
    if node.op == "sqrt":
        lo, hi = enclose(node.args[0])
        if lo < 0:
            raise Fail("constant under a root")
        return sqrt_bounds(lo, 60)[0], sqrt_bounds(hi, 60)[1]
    if node.op == "add":
        r = [enclose(a) for a in node.args]
        return sum(a for a, _ in r), sum(b for _, b in r)
    if node.op == "mul":
        lo = hi = Fraction(1)
        for a in node.args:
            l, h = enclose(a)
            ps = [lo * l, lo * h, hi * l, hi * h]
            lo, hi = min(ps), max(ps)
        return lo, hi
    raise Fail("no constant")


def poly(prover, node, ranges):
    """(sign, polynomial): the node is sign * polynomial / something positive on the box"""
    f = prover.alg.rf(node)
    prover.alg.work = 0
    sign = 1
    for i, e in f.den.items():
        if e % 2:
            d = Poly(prover.alg, prover.alg.factors[i], ranges)
            d.square_variables()
            sign *= decide(d)[0]
    p = Poly(prover.alg, f.num, ranges)
    p.square_variables()
    return sign, p


def sign(prover, node, ranges, **k):
    """+1 / -1: the node is >= 0 / <= 0 on the whole box"""
    s, p = poly(prover, node, ranges)
    return s * decide(p, **k)[0]
