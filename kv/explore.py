"""Depth-first symbolic exploration of the real code: every branch on a symbolic condition is followed both ways unless
one side is infeasible under the precondition and the path so far."""
import traceback
from . import terms as T, smt
from .numeval import Evaluator


class Path:
    def __init__(self, decisions, conds, samples, result, exc, obligations, tb=None):
        self.decisions, self.conds, self.samples = decisions, conds, samples
        self.result, self.exc, self.obligations, self.tb = result, exc, obligations, tb
        self.substitution = {}

    def describe(self):
        return [T.show(c, 5)[:160] for c in self.conds]


class Restart(BaseException):
    pass


class Explorer:
    def __init__(self, assumptions, evaluators, max_paths=64, z3_ms=1500):
        self.assumptions = [a for a in assumptions if a is not T.TRUE]
        self.evs = evaluators                # list of Evaluator that satisfy the assumptions
        self.max_paths = max_paths
        self.z3_ms = z3_ms
        self.truncated = False
        self.extra_evs = []
        self.equal = {}
        self.hunt = None

    # ---- called from terms.decide
    def decide(self, b):
        if b.id in self.cache:
            return self.cache[b.id]
        nb = T.bnot(b)
        if nb.id in self.cache:
            return not self.cache[nb.id]
        for a in self.assumptions:
            if a is b:
                return True
            if a is nb:
                return False
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k][1]
            if self.prefix[k][0] is not b:
                raise T.Unsupported("non-deterministic branching")
            forced = self.prefix[k][2]
        else:
            v, forced = self.choose(b)
        self.trace.append((b, v, forced))
        self.cache[b.id] = v
        if not forced:
            self.conds.append(b if v else nb)
        self.filter(b, v)
        return v

    def filter(self, b, v):
        self.live = [e for e in self.live if e(b) is v]

    def choose(self, b):
        yes = no = 0
        for e in self.live:
            r = e(b)
            if r is True:
                yes += 1
            elif r is False:
                no += 1
        if yes and no:
            self.todo.append(self.trace + [(b, False, False)])
            return True, False
        known = self.restates(b)
        if known is not None:
            return known, True
        # which sides are feasible?
        can = {}
        for v, seen in ((True, yes), (False, no)):
            if seen:
                can[v] = True
                continue
            goal = b if v else T.bnot(b)
            r, model = smt.check(self.assumptions + self.conds + [goal], self.z3_ms, want_model=True)
            can[v] = r != "unsat"
            if model and self.witness(model, goal):
                continue
            if r != "unsat" and self.hunt:
                e = self.hunt(self.conds, goal)
                if e is not None and all(e is not x for x in self.evs):
                    self.evs.append(e)
        if can[True] and can[False]:
            first = bool(yes) or not no
            self.todo.append(self.trace + [(b, not first, False)])
            return first, False
        if can[True]:
            return True, True
        if can[False]:
            return False, True
        raise Infeasible()

    def same(self, x, y):
        """whether x = y follows from the assumptions (fingerprinted on the samples, then proved)"""
        k = (x.id, y.id)
        if k not in self.equal:
            r = bool(self.live)
            for e in self.live[:3]:
                v, w = e(x), e(y)
                if v is None or w is None or abs(v - w) > abs(w) * 1e-11:
                    r = False
            if r:
                from .prove import Prover
                r = Prover(self.assumptions, self.live[:2], budget=40000).zero(T.sub(x, y)).status == "proved"
            self.equal[k] = r
        return self.equal[k]

    def restates(self, b):
        """truth of b when its left side is, as a polynomial identity, plus or minus the left side of an assumption g <= 0 or g < 0"""
        if b.op != "rel" or b.val not in ("<=", "<") or not self.live:
            return None
        x = b.args[0]
        vx = [e(x) for e in self.live[:3]]
        if any(v is None or v == 0 for v in vx):
            return None
        for a in self.assumptions:
            if a.op != "rel" or a.val not in ("<=", "<"):
                continue
            g = a.args[0]
            vg = [e(g) for e in self.live[:3]]
            if any(v is None for v in vg):
                continue
            for s in (1, -1):
                if any(abs(v - s * w) > abs(v) * 1e-11 for v, w in zip(vx, vg)):
                    continue
                strict, want = a.val == "<", b.val == "<"
                # s=1: x = g (<|<=) 0;  s=-1: x = -g (>|>=) 0
                if s == 1 and (strict or not want):
                    r = True
                elif s == -1 and (strict or want):
                    r = False
                else:
                    continue
                from .prove import Prover
                if Prover(self.assumptions, self.live[:2], budget=20000).zero(T.sub(x, g) if s == 1 else T.add(x, g)).status == "proved":
                    return r
        return None

    def witness(self, model, goal):
        e = Evaluator(model)
        if all(e(a) is True for a in self.assumptions) and all(e(c) is True for c in self.conds) and e(goal) is True:
            e.from_solver = True
            self.evs.append(e)
            return True
        return False

    def floor_of(self, x):
        vals = set()
        for e in self.live:
            v = e(x)
            if v is not None:
                import mpmath
                vals.add(int(mpmath.floor(v)))
        for v in sorted(vals, key=abs):
            c = T.band(T.rel(T.sub(T.const(v), x), "<="), T.rel(T.sub(x, T.const(v + 1)), "<"))
            if len(vals) == 1 and smt.implies(self.assumptions + self.conds, c, self.z3_ms):
                return v
            if len(vals) > 1 or True:
                if len(vals) > 6:
                    return None
                if self.decide(c):
                    return v
        return None

    # ---- recording
    def oblige(self, name, node):
        """node must be zero"""
        self.obls.append((name, node, "zero"))

    def oblige_true(self, name, cond):
        self.obls.append((name, cond, "true"))

    # ---- driver
    reset = None        # puts the package's memory back before each path

    def run(self, fn, allowed=()):
        """fn() is run once per path; exceptions of the real code become path outcomes"""
        paths = []
        self.todo = [[]]
        while self.todo:
            if len(paths) >= self.max_paths:
                self.truncated = True
                break
            self.prefix = self.todo.pop()
            self.trace, self.conds, self.cache, self.obls = [], [], {}, []
            self.live = list(self.evs)
            if self.reset:
                self.reset()
            old = T.CTX[0]
            T.CTX[0] = self
            result = exc = tb = None
            try:
                result = fn()
            except Infeasible:
                continue
            except T.Unsupported as e:
                exc = e
                tb = traceback.format_exc(limit=-4)
            except Exception as e:
                exc = e
                tb = traceback.format_exc(limit=-4)
            finally:
                T.CTX[0] = old
            conds = list(self.conds)
            live = [e for e in self.evs if all(e(c) is True for c in conds)]
            paths.append(Path(self.trace, conds, live, result, exc, self.obls, tb))
        return paths


class Infeasible(BaseException):
    pass


def current():
    return T.CTX[0]
