"""Exact normal forms: rational functions over Q in atoms (variables, opaque function applications, square roots of
irreducible polynomials) modulo the defining relations of the atoms, and a Schwartz-Zippel evaluator over GF(p).

An identity is *proved exactly* when the numerator of its normal form is the zero polynomial; it is *proved by
identity testing* when the exact expansion exceeds its budget but the term vanishes at several uniformly random points
of GF(2^61-1) (error bound reported).
"""
import math
import random
from fractions import Fraction
from math import gcd
import sympy
from . import terms as T

BITS = 12
MASK = (1 << BITS) - 1
P61 = (1 << 61) - 1


class Budget(Exception):
    pass


class NeedSign(Exception):
    """a case split on the sign of this polynomial term (a Node) is needed"""

    def __init__(self, node):
        self.node = node


class ZeroDen(Exception):
    pass


# ------------------------------------------------------------ polynomials: dict monomial(int) -> int
def p_const(c):
    return {0: c} if c else {}


def p_add(a, b, ca=1, cb=1):
    if len(a) < len(b):
        a, b, ca, cb = b, a, cb, ca
    r = dict(a) if ca == 1 else {m: c * ca for m, c in a.items()}
    for m, c in b.items():
        v = r.get(m, 0) + c * cb
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def p_content(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def mono_items(m):
    i = 0
    while m:
        e = m & MASK
        if e:
            yield i, e
        m >>= BITS
        i += 1


class RF:
    """num / (d * prod factor_i^e_i); num an integer polynomial, d a positive integer"""
    __slots__ = ("num", "d", "den")

    def __init__(self, num, d=1, den=None):
        self.num, self.d, self.den = num, d, den or {}


class Algebra:
    def __init__(self, prover, budget=400000):
        self.prover = prover
        self.atoms = []          # list of (kind, node-or-poly)
        self.atom_of = {}        # node id -> index
        self.rel = {}            # atom index -> RF for atom^2
        self.factors = []        # denominator factor polynomials
        self.factor_of = {}
        self.memo = {}
        self.sqrt_memo = {}
        self.sqrt_atoms = {}     # frozenset poly -> index
        self.fn_index = {}
        self.budget = budget
        self.work = 0
        self.exact_unify = True
        self.sz_fallback_used = False

    # ---- atoms
    def new_atom(self, kind, obj):
        self.atoms.append((kind, obj))
        return len(self.atoms) - 1

    def atom_poly(self, i):
        return {1 << (BITS * i): 1}

    def node_atom(self, n):
        i = self.atom_of.get(n.id)
        if i is not None:
            return i
        if n.op == "fn":
            i = self.unify_fn(n)
        else:
            i = self.new_atom("node", n)
        self.atom_of[n.id] = i
        return i

    def unify_fn(self, n):
        """same function, provably equal arguments -> same atom"""
        key = (n.val, len(n.args))
        for m, i in self.fn_index.get(key, []):
            if all(self.equal_nodes(x, y) for x, y in zip(m.args, n.args)):
                return i
        i = self.new_atom("fn", n)
        self.fn_index.setdefault(key, []).append((n, i))
        name = n.val
        if name == "cos":
            s = self.node_atom(T.fn("sin", *n.args)) if T.fn("sin", *n.args).op == "fn" else None
            if s is not None:
                self.rel[i] = RF(p_add(p_const(1), {2 << (BITS * s): 1}, 1, -1))
        elif name in ("cn", "dn"):
            s = self.node_atom(T.mk("fn", n.args, "sn"))
            s2 = {2 << (BITS * s): 1}
            if name == "cn":
                self.rel[i] = RF(p_add(p_const(1), s2, 1, -1))
            else:
                m = self.rf(n.args[1])
                self.rel[i] = self.sub(RF(p_const(1)), self.mul(m, RF(s2)))
        return i

    def equal_nodes(self, x, y):
        if x is y:
            return True
        if not self.prover.fingerprint_equal(x, y):
            return False
        try:
            return not self.sub(self.rf(x), self.rf(y)).num
        except Budget:
            self.sz_fallback_used = True
            return True

    # ---- polynomials with relations
    def p_mul(self, a, b):
        if not a or not b:
            return {}
        if len(a) > len(b):
            a, b = b, a
        self.work += len(a) * len(b)
        if self.work > self.budget:
            raise Budget()
        r = {}
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        return {m: c for m, c in r.items() if c}

    def p_pow(self, a, k):
        r = p_const(1)
        while k:
            if k & 1:
                r = self.p_mul(r, a)
            a = self.p_mul(a, a) if k > 1 else a
            k >>= 1
        return r

    def reduce(self, f):
        """apply atom^2 relations until every related atom has exponent <= 1"""
        while True:
            idx = None
            for i in sorted(self.rel, reverse=True):
                sh = BITS * i
                if any((m >> sh) & MASK >= 2 for m in f.num):
                    idx = i
                    break
            if idx is None:
                return f
            sh = BITS * idx
            parts = {}
            for m, c in f.num.items():
                e = (m >> sh) & MASK
                k = e // 2
                parts.setdefault(k, {})[m - ((2 * k) << sh)] = c
            r2 = self.rel[idx]
            out = None
            kmax = max(parts)
            # sum parts[k] * r2^k over common denominator r2.den^kmax
            dpoly = p_const(r2.d)
            for fi, e in r2.den.items():
                dpoly = self.p_mul(dpoly, self.p_pow(self.factors[fi], e))
            acc = {}
            for k, pz in parts.items():
                t = pz
                if k:
                    t = self.p_mul(t, self.p_pow(r2.num, k))
                if kmax - k and dpoly != {0: 1}:
                    t = self.p_mul(t, self.p_pow(dpoly, kmax - k))
                acc = p_add(acc, t)
            den = dict(f.den)
            for fi, e in r2.den.items():
                den[fi] = den.get(fi, 0) + e * kmax
            f = self.norm(RF(acc, f.d * r2.d**kmax, den))

    def norm(self, f):
        if not f.num:
            return RF({}, 1, {})
        g = gcd(p_content(f.num), f.d)
        if g > 1:
            f = RF({m: c // g for m, c in f.num.items()}, f.d // g, f.den)
        return f

    def factor_id(self, poly):
        """poly primitive; registers it as a denominator factor -> (id, sign)"""
        lead = max(poly)
        s = 1
        if poly[lead] < 0:
            poly = p_scale(poly, -1)
            s = -1
        key = frozenset(poly.items())
        i = self.factor_of.get(key)
        if i is None:
            i = len(self.factors)
            self.factors.append(poly)
            self.factor_of[key] = i
        return i, s

    def common(self, fs):
        den = {}
        d = 1
        for f in fs:
            d = d * f.d // gcd(d, f.d)
            for i, e in f.den.items():
                if e > den.get(i, 0):
                    den[i] = e
        return d, den

    def sum(self, fs):
        fs = [f for f in fs if f.num]
        if not fs:
            return RF({}, 1, {})
        if len(fs) == 1:
            return fs[0]
        d, den = self.common(fs)
        acc = {}
        for f in fs:
            t = f.num
            k = d // f.d
            if k != 1:
                t = p_scale(t, k)
            for i, e in den.items():
                q = e - f.den.get(i, 0)
                if q:
                    t = self.p_mul(t, self.p_pow(self.factors[i], q))
            acc = p_add(acc, t)
        return self.reduce(self.norm(RF(acc, d, den)))

    def neg(self, f):
        return RF(p_scale(f.num, -1), f.d, f.den)

    def sub(self, a, b):
        return self.sum([a, self.neg(b)])

    def mul(self, a, b):
        if not a.num or not b.num:
            return RF({}, 1, {})
        den = dict(a.den)
        for i, e in b.den.items():
            den[i] = den.get(i, 0) + e
        na, nb = a.num, b.num
        # cancel whole factors that appear as the full numerator
        for x in (0, 1):
            z = na if x == 0 else nb
            if len(z) > 1:
                g = p_content(z)
                zp = {m: c // g for m, c in z.items()} if g != 1 else z
                lead = max(zp)
                s = 1
                if zp[lead] < 0:
                    zp = p_scale(zp, -1)
                    s = -1
                i = self.factor_of.get(frozenset(zp.items()))
                if i is not None and den.get(i, 0) > 0:
                    den[i] -= 1
                    if not den[i]:
                        del den[i]
                    z = p_const(s * g)
                    if x == 0:
                        na = z
                    else:
                        nb = z
        return self.reduce(self.norm(RF(self.p_mul(na, nb), a.d * b.d, den)))

    def inv(self, f):
        if not f.num:
            raise ZeroDen()
        num = p_const(f.d)
        for i, e in f.den.items():
            num = self.p_mul(num, self.p_pow(self.factors[i], e))
        poly = f.num
        c = p_content(poly)
        if c != 1:
            poly = {m: v // c for m, v in poly.items()}
        # monomial content
        mono = None
        for m in poly:
            if mono is None:
                mono = dict(mono_items(m))
            else:
                mm = dict(mono_items(m))
                mono = {i: min(e, mm[i]) for i, e in mono.items() if i in mm}
            if not mono:
                break
        out = RF(num, c, {})
        if mono:
            sh = sum(e << (BITS * i) for i, e in mono.items())
            poly = {m - sh: v for m, v in poly.items()}
            for i, e in mono.items():
                if i in self.rel and self.atoms[i][0] == "sqrt":
                    # 1/s^e = s^e / F^e
                    F = self.rel[i]
                    k = self.inv(F)
                    out = self.mul(out, RF(self.p_pow(self.atom_poly(i), e)))
                    for _ in range(e):
                        out = self.mul(out, k)
                else:
                    fi, _ = self.factor_id(self.atom_poly(i))
                    den = dict(out.den)
                    den[fi] = den.get(fi, 0) + e
                    out = RF(out.num, out.d, den)
        if poly == {0: 1}:
            return self.reduce(self.norm(out))
        if poly == {0: -1}:
            return self.reduce(self.norm(self.neg(out)))
        fi, s = self.factor_id(poly)
        den = dict(out.den)
        den[fi] = den.get(fi, 0) + 1
        return self.reduce(self.norm(RF(p_scale(out.num, s), out.d, den)))

    def pow(self, f, k):
        if k < 0:
            f = self.inv(f)
            k = -k
        r = RF(p_const(1))
        while k:
            if k & 1:
                r = self.mul(r, f)
            k >>= 1
            if k:
                f = self.mul(f, f)
        return r

    # ---- nodes -> RF
    def rf(self, node):
        for n in T.postorder([node]):
            if n.id in self.memo:
                continue
            self.memo[n.id] = self._rf1(n)
        return self.memo[node.id]

    def _rf1(self, n):
        op = n.op
        if op == "const":
            return RF(p_const(n.val.numerator), n.val.denominator)
        if op in ("var", "pi"):
            return RF(self.atom_poly(self.node_atom(n)))
        if op == "add":
            return self.sum([self.memo[a.id] for a in n.args])
        if op == "mul":
            r = self.memo[n.args[0].id]
            for a in n.args[1:]:
                r = self.mul(r, self.memo[a.id])
            return r
        if op == "pow":
            b = n.args[0]
            return self.pow(self.memo[b.id], n.val)
        if op == "sqrt":
            return self.sqrt_rf(n)
        if op == "fn":
            if n.val in ("arcsin", "arccos"):
                # an argument that is identically 0, 1 or -1
                for c in (T.ONE, T.ZERO, T.const(-1)):
                    if n.args[0] is not c and self.equal_nodes(n.args[0], c):
                        return self.rf(T.fn(n.val, c))
            if n.val in ("F", "Einc", "Piinc") and n.args[0].op == "fn" and n.args[0].val == "arcsin":
                for c in (T.ONE, T.ZERO, T.const(-1)):
                    if self.equal_nodes(n.args[0].args[0], c):
                        return self.rf(T.fn(n.val, T.fn("arcsin", c), *n.args[1:]))
            return RF(self.atom_poly(self.node_atom(n)))
        raise T.Unsupported(f"no normal form for {op}")

    # ---- square roots
    def sqrt_rf(self, n):
        """sqrt(c * prod f_i^e_i) -> product normal form"""
        r = self.sqrt_memo.get(n.id)
        if r is not None:
            return r
        coef, odd = self.sqrt_split(n.args[0])
        r = coef
        for i in odd:
            r = self.mul(r, RF(self.atom_poly(i)))
        self.sqrt_memo[n.id] = r
        return r

    def mult_factors(self, x):
        """multiplicative structure of a node -> (Fraction, [(RF-poly dict, exponent)])"""
        c = Fraction(1)
        out = []
        stack = [(x, 1)]
        while stack:
            y, e = stack.pop()
            if y.op == "const":
                c *= y.val**e
            elif y.op == "mul":
                stack.extend((a, e) for a in y.args)
            elif y.op == "pow":
                stack.append((y.args[0], e * y.val))
            else:
                f = self.rf(y)
                if not f.num:
                    return Fraction(0), []
                c *= Fraction(1, f.d)**e
                for i, k in f.den.items():
                    out.append((self.factors[i], -k * e))
                out.append((f.num, e))
        return c, out

    def factor_poly(self, poly):
        """irreducible factorisation over Q (atoms as indeterminates) -> (int content, [(poly, exp)])"""
        key = frozenset(poly.items())
        if not hasattr(self, "_fac"):
            self._fac = {}
        r = self._fac.get(key)
        if r is not None:
            return r
        c = p_content(poly)
        if poly[max(poly)] < 0:
            c = -c
        p = {m: v // c for m, v in poly.items()}
        fs = []
        # monomial content
        mono = None
        for m in p:
            mm = dict(mono_items(m))
            mono = mm if mono is None else {i: min(e, mm[i]) for i, e in mono.items() if i in mm}
            if not mono:
                break
        if mono:
            sh = sum(e << (BITS * i) for i, e in mono.items())
            p = {m - sh: v for m, v in p.items()}
            for i, e in mono.items():
                fs.append((self.atom_poly(i), e))
        if len(p) > 1 or 0 not in p:
            idx = sorted({i for m in p for i, _ in mono_items(m)})
            if len(idx) == 0:
                pass
            elif len(p) > 3000:
                raise Budget()
            else:
                gens = sympy.symbols([f"g{i}" for i in idx])
                pos = {i: k for k, i in enumerate(idx)}
                d = {}
                for m, v in p.items():
                    ex = [0] * len(idx)
                    for i, e in mono_items(m):
                        ex[pos[i]] = e
                    d[tuple(ex)] = v
                lst = sympy.Poly.from_dict(d, *gens).factor_list()
                c *= int(lst[0])
                for q, e in lst[1]:
                    qq = {}
                    for ex, v in q.as_dict().items():
                        qq[sum(k << (BITS * idx[j]) for j, k in enumerate(ex) if k)] = int(v)
                    if qq[max(qq)] < 0:
                        qq = p_scale(qq, -1)
                        if e % 2:
                            c = -c
                    fs.append((qq, e))
        elif p.get(0, 1) != 1:
            c *= p[0]
        self._fac[key] = (c, fs)
        return self._fac[key]

    def sqrt_split(self, x):
        c, parts = self.mult_factors(x)
        if c == 0:
            return RF({}), []
        exps = {}
        for poly, e in parts:
            cc, fs = self.factor_poly(poly)
            c *= Fraction(cc)**e
            for q, k in fs:
                key = frozenset(q.items())
                exps[key] = (q, exps.get(key, (q, 0))[1] + k * e)
        # group: cos^2 etc were reduced already; special: 1 - m sn^2 == dn^2
        todo = [(q, e) for q, e in exps.values() if e]
        sign_c = 1 if c > 0 else -1
        unknown = []
        signs = {}
        prod = sign_c
        for k, (q, e) in enumerate(todo):
            if e % 2 == 0 and (e // 2) % 2 == 0:
                signs[k] = 1
                continue
            s = self.prover.sign_poly(self, q)
            if s is None:
                if e % 2:
                    unknown.append(k)
                    continue
                raise NeedSign(self.poly_node(q))
            signs[k] = s
            if e % 2:
                prod *= s
        weak = [k for k, (q, e) in enumerate(todo) if k in signs and frozenset(q.items()) in self.prover.guessed]
        if unknown or len(weak) > 1 or prod < 0 or any(todo[k][1] % 2 == 0 for k in weak):
            for k in weak:
                self.prover.rely(todo[k][0])
        # otherwise one sign was read off the samples, and it follows from the others: the radicand is not negative
        if len(unknown) == 1:
            # the radicand is non-negative wherever the path is defined
            signs[unknown[0]] = prod
        elif unknown:
            raise NeedSign(self.poly_node(todo[unknown[0]][0]))
        coef = RF(p_const(1))
        odd = []
        a = abs(c)
        n, d = a.numerator, a.denominator
        # sqrt(n/d) = sqrt(n*d)/d
        sq, fr = 1, n * d
        for pz, ez in sympy.factorint(fr).items():
            sq *= pz ** (ez // 2)
            if ez % 2:
                odd.append(self.sqrt_atom(p_const(int(pz))))
        coef = RF(p_const(sq), d)
        coef = self.norm(coef)
        for k, (q, e) in enumerate(todo):
            F = q if signs[k] > 0 else p_scale(q, -1)
            h = e // 2 if e % 2 == 0 else (e - 1) // 2
            if h:
                coef = self.mul(coef, self.pow(self.norm(RF(F)), h))
            if e % 2:
                i = self.sqrt_known(F)
                odd.append(i) if not isinstance(i, RF) else None
                if isinstance(i, RF):
                    coef = self.mul(coef, i)
        return coef, odd

    def sqrt_known(self, F):
        """sqrt of an irreducible positive polynomial: an atom, or a known square (atom s itself is positive)"""
        # F = single atom which is itself dn etc: plain atom root
        for i, r in list(self.rel.items()):
            kind, obj = self.atoms[i]
            if kind == "fn" and obj.val in ("dn", "cos", "cn"):
                # F proportional to the numerator of obj^2 = num/(d*den)
                if set(r.num) == set(F):
                    m = max(F)
                    ratio = Fraction(F[m], r.num[m])
                    if ratio > 0 and all(Fraction(F[k], r.num[k]) == ratio for k in F):
                        if obj.val == "dn":
                            # sqrt(F) = dn * sqrt(ratio*d*den)
                            den = T.const(ratio * r.d)
                            for fi, e in r.den.items():
                                den = T.mul(den, T.power(self.poly_node(self.factors[fi]), e))
                            c2, odd2 = self.sqrt_split(den)
                            out = self.mul(c2, RF(self.atom_poly(i)))
                            for j in odd2:
                                out = self.mul(out, RF(self.atom_poly(j)))
                            return out
        return self.sqrt_atom(F)

    def sqrt_atom(self, F):
        key = frozenset(F.items())
        i = self.sqrt_atoms.get(key)
        if i is None:
            i = self.new_atom("sqrt", F)
            self.sqrt_atoms[key] = i
            self.rel[i] = RF(dict(F))
        return i

    # ---- back to nodes
    def atom_node(self, i):
        kind, obj = self.atoms[i]
        if kind == "sqrt":
            return T.sqrt(self.poly_node(obj))
        return obj

    def poly_node(self, poly):
        ts = []
        for m, c in sorted(poly.items()):
            fs = [T.const(c)]
            for i, e in mono_items(m):
                fs.append(T.power(self.atom_node(i), e))
            ts.append(T.mul(*fs))
        return T.add(*ts) if ts else T.ZERO


# ------------------------------------------------------------ Schwartz-Zippel evaluation
class NonResidue(Exception):
    pass


class SZ:
    """evaluate nodes at one random point of GF(p); function applications are random functions of their argument
    values subject to the defining relations (sin^2+cos^2=1, sn^2+cn^2=1, dn^2=1-m sn^2)"""

    def __init__(self, alg, seed, p=P61):
        self.alg, self.seed, self.p = alg, seed, p
        self.memo = {}
        self.atomv = {}
        self.rnd = {}

    def prf(self, *key):
        import hashlib
        h = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=16).digest()
        return int.from_bytes(h, "big") % self.p

    def inv(self, v):
        if v == 0:
            raise NonResidue()
        return pow(v, -1, self.p)

    def sqrtmod(self, v):
        p = self.p
        r = pow(v, (p + 1) // 4, p)
        if r * r % p != v % p:
            raise NonResidue()
        return r

    def poly(self, poly):
        p = self.p
        acc = 0
        for m, c in poly.items():
            t = c % p
            for i, e in mono_items(m):
                t = t * pow(self.atom(i), e, p) % p
            acc += t
        return acc % p

    def rfv(self, f):
        p = self.p
        v = self.poly(f.num) * self.inv(f.d % p) % p
        for i, e in f.den.items():
            v = v * pow(self.inv(self.poly(self.alg.factors[i])), e, p) % p
        return v

    def atom(self, i):
        v = self.atomv.get(i)
        if v is None:
            kind, obj = self.alg.atoms[i]
            v = self.sqrtmod(self.poly(obj)) if kind == "sqrt" else self.node(obj)
            self.atomv[i] = v
        return v

    def node(self, node):
        memo = self.memo
        if node.id in memo:
            return memo[node.id]
        p = self.p
        for n in T.postorder([node]):
            if n.id in memo:
                continue
            op = n.op
            if op == "const":
                v = n.val.numerator * self.inv(n.val.denominator % p) % p
            elif op in ("var", "pi"):
                v = self.prf("v", str(n.val), op)
            elif op == "add":
                v = sum(memo[a.id] for a in n.args) % p
            elif op == "mul":
                v = 1
                for a in n.args:
                    v = v * memo[a.id] % p
            elif op == "pow":
                b = memo[n.args[0].id]
                v = pow(b, n.val, p) if n.val > 0 else pow(self.inv(b), -n.val, p)
            elif op == "sqrt":
                coef, odd = self.alg_sqrt(n)
                v = self.rfv(coef)
                for i in odd:
                    v = v * self.atom(i) % p
            elif op == "fn":
                v = self.fn(n, [memo[a.id] for a in n.args])
            else:
                raise T.Unsupported(op)
            memo[n.id] = v
        return memo[node.id]

    def alg_sqrt(self, n):
        a = self.alg
        r = a.__dict__.setdefault("_split", {}).get(n.id)
        if r is None:
            r = a.sqrt_split(n.args[0])
            a._split[n.id] = r
        return r

    def circle(self, *key):
        p = self.p
        t = self.prf("t", *key)
        d = self.inv(1 + t * t)
        return 2 * t * d % p, (1 - t * t) * d % p

    def fn(self, n, av):
        p = self.p
        name = n.val
        if name in ("sin", "cos"):
            s, c = self.circle("trig", av[0])
            return s if name == "sin" else c
        if name in ("sn", "cn", "dn"):
            u, m = av
            k = ("ell", u, m)
            if k not in self.rnd:
                j = 0
                while True:
                    s, c = self.circle("ell", u, m, j)
                    d2 = (1 - m * s * s) % p
                    r = pow(d2, (p + 1) // 4, p)
                    if r * r % p == d2:
                        self.rnd[k] = (s, c, r)
                        break
                    j += 1
            return self.rnd[k][("sn", "cn", "dn").index(name)]
        return self.prf("f", name, tuple(av))


class F2:
    """element x + y i of GF(p^2), p = 2^61-1 (p = 3 mod 4, so i^2 = -1 has no root in GF(p))"""
    __slots__ = ("x", "y")

    def __init__(self, x, y=0):
        self.x, self.y = x % P61, y % P61

    def __add__(self, o):
        return F2(self.x + o.x, self.y + o.y)

    def __mul__(self, o):
        return F2(self.x * o.x - self.y * o.y, self.x * o.y + self.y * o.x)

    def __pow__(self, k):
        r, b = F2(1), self
        while k:
            if k & 1:
                r = r * b
            b = b * b
            k >>= 1
        return r

    def __eq__(self, o):
        return self.x == o.x and self.y == o.y

    def __hash__(self):
        return hash((self.x, self.y))

    def __repr__(self):
        return f"{self.x},{self.y}"

    def zero(self):
        return self.x == 0 and self.y == 0

    def inv(self):
        n = (self.x * self.x + self.y * self.y) % P61
        if n == 0:
            raise NonResidue()
        k = pow(n, -1, P61)
        return F2(self.x * k, -self.y * k)

    def sqrt(self):
        def rt(v):
            r = pow(v, (P61 + 1) // 4, P61)
            return r if r * r % P61 == v % P61 else None
        if self.y == 0:
            r = rt(self.x)
            return F2(r) if r is not None else F2(0, rt(-self.x % P61))
        s = rt(self.x * self.x + self.y * self.y)
        if s is None:
            raise NonResidue()
        half = pow(2, -1, P61)
        for sg in (s, -s):
            t = rt((self.x + sg) * half % P61)
            if t:
                return F2(t, self.y * pow(2 * t, -1, P61))
        raise NonResidue()


class SZ2(SZ):
    """the same over GF(p^2): square roots of elements of GF(p) always exist"""

    def prf2(self, *key):
        return F2(self.prf(*key))

    def poly(self, poly):
        acc = F2(0)
        for m, c in poly.items():
            t = F2(c)
            for i, e in mono_items(m):
                t = t * self.atom(i) ** e
            acc = acc + t
        return acc

    def rfv(self, f):
        v = self.poly(f.num) * F2(f.d).inv()
        for i, e in f.den.items():
            v = v * self.poly(self.alg.factors[i]).inv() ** e
        return v

    def atom(self, i):
        v = self.atomv.get(i)
        if v is None:
            kind, obj = self.alg.atoms[i]
            v = self.poly(obj).sqrt() if kind == "sqrt" else self.node(obj)
            self.atomv[i] = v
        return v

    def node(self, node):
        memo = self.memo
        if node.id in memo:
            return memo[node.id]
        for n in T.postorder([node]):
            if n.id in memo:
                continue
            op = n.op
            if op == "const":
                v = F2(n.val.numerator) * F2(n.val.denominator).inv()
            elif op in ("var", "pi"):
                v = self.prf2("v", str(n.val), op)
            elif op == "add":
                v = F2(sum(memo[a.id].x for a in n.args), sum(memo[a.id].y for a in n.args))
            elif op == "mul":
                v = F2(1)
                for a in n.args:
                    v = v * memo[a.id]
            elif op == "pow":
                b = memo[n.args[0].id]
                v = b ** n.val if n.val > 0 else b.inv() ** -n.val
            elif op == "sqrt":
                coef, odd = self.alg_sqrt(n)
                v = self.rfv(coef)
                for i in odd:
                    v = v * self.atom(i)
            elif op == "fn":
                v = self.fn(n, [memo[a.id] for a in n.args])
            else:
                raise T.Unsupported(op)
            memo[n.id] = v
        return memo[node.id]

    def circle(self, *key):
        t = self.prf2("t", *key)
        d = (F2(1) + t * t).inv()
        return F2(2) * t * d, (F2(1) + F2(-1) * t * t) * d

    def fn(self, n, av):
        name = n.val
        if name in ("sin", "cos"):
            s, c = self.circle("trig", av[0])
            return s if name == "sin" else c
        if name in ("sn", "cn", "dn"):
            u, m = av
            k = ("ell", u, m)
            if k not in self.rnd:
                for j in range(200):
                    s, c = self.circle("ell", u, m, j)
                    try:
                        self.rnd[k] = (s, c, (F2(1) + F2(-1) * m * s * s).sqrt())
                        break
                    except NonResidue:
                        pass
                else:
                    raise NonResidue()
            return self.rnd[k][("sn", "cn", "dn").index(name)]
        return self.prf2("f", name, tuple(av))
