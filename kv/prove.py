"""Discharging obligations: refute numerically (60 digits) / prove by exact normal form / prove by identity testing."""
import time
from mpmath import mpf
from . import terms as T, smt
from .algebra import Algebra, SZ, SZ2, F2, Budget, NeedSign, NonResidue, ZeroDen

STATS = {"exact": 0, "identity": 0, "smt": 0, "refuted": 0, "undecided": 0, "time": 0.0, "sampled_signs": set(),
         "split": 0}


def nonneg(n):
    """structurally non-negative"""
    if n.op == "const":
        return n.val >= 0
    if n.op in ("sqrt", "pi"):
        return True
    if n.op == "pow":
        return n.val % 2 == 0 or nonneg(n.args[0])
    if n.op in ("mul", "add"):
        return all(nonneg(a) for a in n.args)
    return False


class Result:
    def __init__(self, status, how="", sample=None, deviation=None, note=""):
        self.status, self.how, self.sample, self.deviation, self.note = status, how, sample, deviation, note

    @property
    def proved(self):
        return self.status == "proved"


class Prover:
    def __init__(self, conds, evs, budget=150000, sz_rounds=2, seed=1, z3_ms=300, need_samples=1):
        self.conds, self.evs = list(conds), list(evs)
        self.budget, self.rounds, self.seed, self.z3_ms = budget, sz_rounds, seed, z3_ms
        self.need_samples = need_samples
        self.signs = {}
        self.guessed = {}        # signs read off the samples and not confirmed by the solver
        self.alg = Algebra(self, budget)

    # ---- services for the algebra
    def product_nonneg(self, x):
        """a product of which each factor is nonnegative by its form or by z3"""
        if x.op != "mul":
            return False
        for f in x.args:
            b = f.args[0] if f.op == "pow" and f.val % 2 else f
            if nonneg(f) or nonneg(b) or smt.implies(self.conds, T.rel(T.neg(b), "<="), max(self.z3_ms, 1000)):
                continue
            if any(c.op == "rel" and c.val in ("<", "<=") and self.fingerprint_equal(b, T.neg(c.args[0])) and self.zero(T.add(b, c.args[0])).proved
                   for c in self.conds):
                continue
            return False
        return True

    def sign_poly(self, alg, poly):
        key = frozenset(poly.items())
        if key in self.signs:
            return self.signs[key]
        node = alg.poly_node(poly)
        guess = None
        seen = 0
        for e in self.evs[:12]:
            v = e(node)
            if v is None:
                continue
            if abs(v) < mpf(10) ** -30:
                continue
            s = 1 if v > 0 else -1
            seen += 1
            if guess is None:
                guess = s
            elif guess != s:
                guess = 0
                break
        if guess == 0:
            r = None
        elif guess is None:
            r = None
            for s in (1, -1):
                if smt.implies(self.conds, T.rel(T.mul(T.const(-s), node), "<="), self.z3_ms):
                    r = s
                    break
        else:
            r = guess
            goal = T.rel(T.mul(T.const(-guess), node), "<=")
            if not smt.implies(self.conds, goal, self.z3_ms):
                self.guessed[key] = ("+" if guess > 0 else "-") + T.show(node, 6)[:200]
        self.signs[key] = r
        return r

    def rely(self, poly):
        """a sign that nothing but the samples supports is about to be used"""
        g = self.guessed.get(frozenset(poly.items()))
        if g:
            STATS["sampled_signs"].add(g)

    def fingerprint_equal(self, x, y):
        if x is y:
            return True
        n = 0
        for e in self.evs[:3]:
            a, b = e(x), e(y)
            if a is None or b is None:
                if (a is None) != (b is None):
                    return False
                continue
            n += 1
            if abs(a - b) > mpf(10) ** -35 * (1 + abs(a)):
                return False
        return n > 0

    # ---- obligations
    def zero(self, node, depth=0):
        t0 = time.time()
        r = self._zero(node, depth)
        if depth == 0:
            STATS["time"] += time.time() - t0
            k = r.how if r.proved else r.status
            STATS[k] = STATS.get(k, 0) + 1
        return r

    def numeric(self, node):
        """-> (number of evaluations, refuting evaluator or None, deviation)"""
        n = 0
        for e in self.evs[:16]:
            v = e(node)
            if v is None:
                continue
            n += 1
            sc = e.scale(node)
            if abs(v) > mpf(10) ** -25 * (1 + sc):
                return n, e, float(abs(v) / (1 + sc))
        return n, None, 0.0

    def _zero(self, node, depth):
        if node is T.ZERO:
            return Result("proved", "exact")
        n, bad, dev = self.numeric(node)
        if bad is not None:
            return Result("refuted", "numeric", bad.sample, dev)
        try:
            ok = self.identity(node)
        except NeedSign as e:
            if depth >= 3:
                return Result("undecided", note="case split too deep")
            return self.split(e.node, node, depth)
        except (Budget, ZeroDen, NonResidue, T.Unsupported, RecursionError, ZeroDivisionError) as e:
            return Result("undecided", note=f"{type(e).__name__}; numerically zero at {n} points")
        if not ok:
            return Result("undecided", note=f"not an identity of the term algebra; numerically zero at {n} points")
        self.alg.work = 0
        try:
            f = self.alg.rf(node)
            if not f.num:
                return Result("proved", "exact")
            return Result("undecided", note="normal form not zero")
        except NeedSign as e:
            return Result("proved", "identity")
        except (Budget, ZeroDen, T.Unsupported, RecursionError, MemoryError):
            return Result("proved", "identity")

    def identity(self, node):
        """vanishes at uniformly random points of GF(p), or of GF(p^2) when too many square roots are involved"""
        for field, limit in ((SZ, 300), (SZ2, 600)):
            good = 0
            seed = 0
            while good < self.rounds and seed < limit:
                seed += 1
                try:
                    v = field(self.alg, (self.seed, seed)).node(node)
                except NonResidue:
                    continue
                if not (v.zero() if isinstance(v, F2) else v == 0):
                    return False
                good += 1
            if good >= self.rounds:
                return True
        raise NonResidue()

    def split(self, cnode, node, depth):
        STATS["split"] += 1
        hows = set()
        for c in (T.rel(T.neg(cnode), "<"), T.rel(cnode, "<")):
            if smt.check(self.conds + [c], self.z3_ms)[0] == "unsat":
                continue
            p = Prover(self.conds + [c], [e for e in self.evs if e(c) is True], self.budget, self.rounds, self.seed,
                       self.z3_ms)
            r = p._zero(node, depth + 1)
            if not r.proved:
                return r
            hows.add(r.how)
        return Result("proved", "identity" if "identity" in hows else "exact", note="case split")

    def true(self, cond):
        t0 = time.time()
        r = self._true(cond)
        STATS["time"] += time.time() - t0
        k = r.how if r.proved else r.status
        STATS[k] = STATS.get(k, 0) + 1
        return r

    def _true(self, cond):
        if cond is T.TRUE:
            return Result("proved", "exact")
        if cond.op == "rel" and cond.val == "<=" and nonneg(T.neg(cond.args[0])):
            return Result("proved", "exact")
        n = 0
        for e in self.evs[:16]:
            v = e(cond)
            if v is None:
                continue
            n += 1
            if v is False:
                # ignore failures that are only rounding on a boundary
                if cond.op == "rel" and abs(e(cond.args[0])) < mpf(10) ** -30:
                    continue
                return Result("refuted", "numeric", e.sample, float(abs(e(cond.args[0]))) if cond.op == "rel" else 1.0)
        if smt.implies(self.conds, cond, max(self.z3_ms, 2000)):
            return Result("proved", "smt")
        if cond.op == "rel" and cond.val == "<=" and self.product_nonneg(T.neg(cond.args[0])):
            return Result("proved", "smt")
        return Result("undecided", note=f"not discharged by z3; true at {n} points")
