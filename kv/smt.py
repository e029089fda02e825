"""z3 back end: satisfiability of conjunctions of polynomial conditions over terms."""
import sys
from fractions import Fraction
import z3
from . import terms as T

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0}


class Translator:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.vars = {}

    def node(self, root):
        m = self.memo
        for n in T.postorder([root]):
            if n.id not in m:
                m[n.id] = self.one(n)
        return m[root.id]

    def fresh(self, n):
        return z3.Real(f"t{n.id}")

    def one(self, n):
        m = self.memo
        op = n.op
        a = [m[x.id] for x in n.args]
        if op == "const":
            return z3.RealVal(str(n.val))
        if op == "pi":
            v = z3.Real("pi")
            self.side += [v > z3.RealVal("3.141592653589793"), v < z3.RealVal("3.1415926535897936")]
            return v
        if op == "var":
            if str(n.val).startswith("int_"):
                i = z3.Int(str(n.val))
                self.vars[n.val] = i
                return z3.ToReal(i)
            v = z3.Real(str(n.val))
            self.vars[n.val] = v
            return v
        if op == "bvar":
            return z3.Bool(str(n.val))
        if op == "add":
            return z3.Sum(a)
        if op == "mul":
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if op == "pow":
            e = n.val
            if e > 0:
                r = a[0]
                for _ in range(e - 1):
                    r = r * a[0]
                return r
            v = self.fresh(n)
            r = v
            for _ in range(-e):
                r = r * a[0]
            self.side += [r == 1]
            return v
        if op == "sqrt":
            v = self.fresh(n)
            self.side += [v >= 0, v * v == a[0]]
            return v
        if op == "fn":
            v = self.fresh(n)
            k = n.val
            if k in ("sin", "sn"):
                self.side += [v <= 1, v >= -1]
                c = T.mk("fn", n.args, "cos" if k == "sin" else "cn")
                w = z3.Real(f"t{c.id}")
                self.side += [v * v + w * w == 1]
            elif k in ("cos", "cn"):
                self.side += [v <= 1, v >= -1]
                s = T.mk("fn", n.args, "sin" if k == "cos" else "sn")
                w = z3.Real(f"t{s.id}")
                self.side += [v * v + w * w == 1]
            elif k == "dn":
                s = T.mk("fn", n.args, "sn")
                w = z3.Real(f"t{s.id}")
                self.side += [v > 0, w >= -1, w <= 1, v * v == 1 - a[1] * w * w]
            elif k == "K":
                self.side += [v > z3.RealVal("1.5"), ] if False else [v > 0]
            elif k == "E":
                self.side += [v > 0]
            elif k == "exp":
                self.side += [v > 0]
            elif k == "floor":
                i = z3.Int(f"f{n.id}")
                self.side += [v == z3.ToReal(i), v <= a[0], a[0] < v + 1]
            elif k == "arccos":
                p = self.one(T.PI)
                self.side += [v >= 0, v <= p]
            elif k == "arcsin" or k == "arctan":
                p = self.one(T.PI)
                self.side += [2 * v >= -p, 2 * v <= p]
            return v
        if op == "rel":
            return a[0] < 0 if n.val == "<" else a[0] <= 0 if n.val == "<=" else a[0] == 0
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(a)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        raise T.Unsupported("z3: " + op)


def _num(v):
    if z3.is_algebraic_value(v):
        v = v.approx(40)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


_cache = {}


def check(conds, timeout_ms=1500, want_model=False):
    """-> ('unsat'|'sat'|'unknown', model dict or None)"""
    key = (tuple(sorted({c.id for c in conds})), want_model)
    if key in _cache:
        return _cache[key]
    import time
    t0 = time.time()
    tr = Translator()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    try:
        fs = [tr.node(c) for c in conds]
    except T.Unsupported:
        return "unknown", None
    s.add(*fs)
    s.add(*tr.side)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    model = None
    if r == z3.sat and want_model:
        m = s.model()
        model = {}
        for name, v in tr.vars.items():
            q = m.eval(v, model_completion=True)
            if isinstance(q, z3.IntNumRef):
                model[name] = Fraction(q.as_long())
            else:
                q = _num(q)
                if q is None:
                    model = None
                    break
                model[name] = q
    STATS["queries"] += 1
    STATS[str(r)] = STATS.get(str(r), 0) + 1
    STATS["time"] += time.time() - t0
    _cache[key] = (str(r), model)
    return _cache[key]


def implies(conds, goal, timeout_ms=1500):
    r, _ = check(list(conds) + [T.bnot(goal)], timeout_ms)
    if r == "unknown":
        # long hypotheses can keep the solver from using the short ones: leave them out
        short = [c for c in conds if len(T.postorder([c])) <= 40]
        if len(short) < len(conds):
            r, _ = check(short + [T.bnot(goal)], timeout_ms)
    return r == "unsat"
