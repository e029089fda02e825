"""Search for a sample that reaches a branch no random sample has reached: the sampler is a function of its random draws, so the
draws (and, where the precondition still holds, single variables) are moved until every condition of the path is true."""
import random
import time
from . import terms as T
from .numeval import Evaluator

STATS = {"hunts": 0, "found": 0, "time": 0.0}
# seconds per property and per verification condition
LIMIT = [25.0, 3.0]


class Draws(random.Random):
    """random numbers that are remembered and can be overridden one by one (by a number in [0,1) or a function of the range)"""

    def __init__(self, seed, base=(), moves=None):
        super().__init__(seed)
        self.base, self.moves, self.k, self.log = list(base), moves or {}, 0, []

    def _next(self):
        k = self.k
        self.k += 1
        u = self.base[k] if k < len(self.base) else super().random()
        self.log.append(u)
        return k, u

    def random(self):
        k, u = self._next()
        m = self.moves.get(k)
        if isinstance(m, float):
            return m
        return u

    def uniform(self, a, b):
        k, u = self._next()
        m = self.moves.get(k)
        if callable(m):
            v = m(a, b)
            if v is not None:
                return v
        elif m is not None:
            u = m
        return a + (b - a) * u

    def gauss(self, mu=0.0, sigma=1.0):
        k, u = self._next()
        v = (u - .5) * 4
        m = self.moves.get(k)
        if callable(m):
            w = m(0.0, 1.0)
            v = v if w is None else w
        return mu + sigma * v


GRID = [0.5, 0.02, 0.98, 0.2, 0.8, 1e-4, 1 - 1e-4]
FAR = ([lambda a, b, f=f: a * f if a > 0 else None for f in (.3, .1, 1e-2, 1e-3, 1e-4, 1e-6)] +
       [lambda a, b, f=f: b * f if b >= 1 else None for f in (1.5, 10, 1e3, 1e6)] +
       [lambda a, b, f=f: 1 - (1 - b) * f if 0 < b < 1 else None for f in (.3, .1, 1e-2, 1e-4)] +
       [lambda a, b, f=f: -b * f if a > 0 else None for f in (1,)])
SCALES = [0.3, 0.1, 1e-2, 1e-3, 1e-4, 1e-6, 1.5, 3, 10, 1e3, 1e6, -1]


class Hunter:
    def __init__(self, vc, assume, evs, seed):
        self.vc, self.assume, self.evs, self.seed = vc, assume, evs, seed
        self.tried = {}
        self.spent = 0.0
        self.cache = {}

    def make(self, base, moves):
        k = (id(base), tuple(sorted((i, id(m) if callable(m) else m) for i, m in moves.items())))
        if k in self.cache:
            return self.cache[k]
        e = None
        try:
            d = Draws(self.seed, base, moves)
            s = self.vc.sampler(d)
            if s is not None:
                e = Evaluator(s)
                e.draws = d.log
                if not all(e(a) is True for a in self.assume):
                    e = None
        except Exception:
            e = None
        self.cache[k] = e
        return e

    def move(self, e, v, x):
        s = dict(e.sample)
        s[v] = x
        try:
            if getattr(self.vc, "derive", None):
                s = self.vc.derive(s)
                if s is None:
                    return None
            f = Evaluator(s)
            return f if all(f(a) is True for a in self.assume) else None
        except Exception:
            return None

    def __call__(self, conds, goal):
        """an Evaluator that satisfies the precondition, conds and goal, or None"""
        n = self.tried.get(goal.id, 0)
        if n >= 2 or not self.evs or self.spent > LIMIT[1] or STATS["time"] > LIMIT[0]:
            return None
        self.tried[goal.id] = n + 1
        STATS["hunts"] += 1
        t0 = time.time()
        try:
            r = self.search(list(conds), goal, t0)
        finally:
            d = time.time() - t0
            self.spent += d
            STATS["time"] += d
        if r is not None:
            STATS["found"] += 1
        return r

    def search(self, conds, goal, t0):
        neg = goal.op == "not"
        rel = goal.args[0] if neg else goal
        if rel.op != "rel":
            rel = None
        used = T.free_vars([goal]) if hasattr(T, "free_vars") else None

        def ok(e):
            return e is not None and e(goal) is True and all(e(c) is True for c in conds)

        def rank(e):
            """smaller is closer"""
            if e is None:
                return None
            bad = sum(1 for c in conds if e(c) is not True)
            if e(goal) is True:
                return bad, 0.0
            if rel is None:
                return bad + 1, 1.0
            x = e(rel.args[0])
            if x is None:
                return bad + 1, 1e30
            return bad + 1, float(abs(x))
        best = []
        start = sorted(self.evs, key=lambda e: rank(e) or (99, 0))[:3]
        for e in start:
            if ok(e):
                return e
            # single variables first: cheap
            for v, x in list(e.sample.items()):
                if not isinstance(x, float) or v.startswith("int_"):
                    continue
                if used is not None and v not in used:
                    continue
                for f in [x * k for k in SCALES] + [1 - (1 - x) * k for k in (.1, 1e-2, 1e-4) if 0 < x < 1]:
                    c = self.move(e, v, f)
                    if ok(c):
                        return c
                if time.time() - t0 > 1:
                    return None
        if self.vc.sampler is None:
            return None
        for e in start:
            base = getattr(e, "draws", None)
            if base is None:
                continue
            moves, top = {}, rank(e)
            for _ in range(3):
                better = None
                for i in range(len(base)):
                    for m in FAR + GRID:
                        c = self.make(base, {**moves, i: m})
                        if ok(c):
                            return c
                        r = rank(c)
                        if r is not None and r < top:
                            top, better = r, {**moves, i: m}
                        if time.time() - t0 > 1.2:
                            return None
                if better is None:
                    break
                moves = better
        return None
