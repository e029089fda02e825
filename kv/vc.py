"""Verification conditions: one VC runs one (or a few) real functions on symbolic arguments satisfying a precondition,
on every feasible path, and yields named obligations that are discharged one by one."""
import random
import time
from . import bernstein, terms as T, smt
from .algebra import Budget, NeedSign, ZeroDen
from .explore import Explorer
from .hunt import Draws, Hunter
from .numeval import Evaluator
from .patch import Patch
from .prove import Prover, Result, STATS


class Undecided(Exception):
    pass


class Hinted(tuple):
    """an obligation with a proof of its own"""
    proof = None


class Scope:
    """handed to the VC body"""

    def __init__(self, ex, patch):
        self.ex, self.patch = ex, patch
        self.mods = patch.mods

    def __getattr__(self, name):
        if name in self.mods:
            return self.mods[name]
        raise AttributeError(name)

    def zero(self, name, x):
        """oblige x == 0"""
        if isinstance(x, T.SymC):
            self.ex.oblige(name + ".re", x.re)
            self.ex.oblige(name + ".im", x.im)
            return
        self.ex.oblige(name, N(x))

    def eq(self, name, x, y):
        if isinstance(x, T.SymC) or isinstance(y, T.SymC):
            return self.zero(name, T.SymC.of(x) - T.SymC.of(y))
        self.ex.oblige(name, T.sub(N(x), N(y)))

    def true(self, name, cond, proof=None):
        """oblige cond; proof(prover) -> note is tried when the solver does not decide it, and raises bernstein.Fail"""
        if isinstance(cond, T.SymBool):
            cond = cond.n
        elif isinstance(cond, bool) or str(type(cond)).find("bool") >= 0:
            cond = T.TRUE if cond else T.FALSE
        self.ex.oblige_true(name, cond)
        if proof is not None:
            self.ex.obls[-1] = Hinted(self.ex.obls[-1])
            self.ex.obls[-1].proof = proof

    def fail(self, name):
        self.ex.oblige_true(name, T.FALSE)

    def ok(self, name):
        self.ex.oblige_true(name, T.TRUE)


def N(x):
    if isinstance(x, T.Node):
        return x
    n = T.lift(x)
    if n is None:
        raise T.Unsupported(f"not a number: {type(x).__name__}")
    return n


def S(x):
    return x if isinstance(x, T.Sym) else T.Sym(N(x))


def var(name):
    return T.Sym(T.var(name))


PI = T.Sym(T.PI)


def fn(name, *a):
    return T.Sym(T.fn(name, *[N(x) for x in a]))


def sqrt(x):
    return T.Sym(T.sqrt(N(x)))


def lt(x, y):
    return T.rel(T.sub(N(x), N(y)), "<")


def le(x, y):
    return T.rel(T.sub(N(x), N(y)), "<=")


class Record:
    def __init__(self, vc, name, path, status, how, note="", sample=None, deviation=None, functions=()):
        self.vc, self.name, self.path, self.status, self.how = vc, name, path, status, how
        self.note, self.sample, self.deviation, self.functions = note, sample, deviation, functions

    def as_dict(self):
        return {"vc": self.vc, "obligation": self.name, "path": self.path, "status": self.status, "by": self.how,
                "note": self.note}


class VC:
    def __init__(self, name, functions, body, assume=(), sampler=None, stubs=None, poly_roots=None, root_scalar=None,
                 replace=None, consts=None, concretize=None, max_paths=48, nsamples=8, budget=150000, raises=None,
                 setup=None, z3_ms=300, path_z3_ms=1000, fixed_samples=(), min_obligations=1, trusted=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def samples(self, seed):
        rng = random.Random(f"{seed}:{self.name}")
        out = []
        assume = [a.n if isinstance(a, T.SymBool) else a for a in self.assume]
        for s in self.fixed_samples:
            e = Evaluator(dict(s))
            if all(e(a) is True for a in assume):
                out.append(e)
        if self.sampler is None:
            out.append(Evaluator({}))
            return assume, out
        tries = 0
        while len(out) < self.nsamples + len(self.fixed_samples) and tries < 4000:
            tries += 1
            d = Draws(rng.random())
            s = self.sampler(d)
            if s is None:
                continue
            e = Evaluator(s)
            e.draws = d.log
            if all(e(a) is True for a in assume):
                out.append(e)
        return assume, out

    def run(self, seed, deadline=None):
        recs = []
        assume, evs = self.samples(seed)
        if not evs:
            return [Record(self.name, "precondition", "", "undecided", "", "vacuous: no sample satisfies the precondition",
                           functions=self.functions)]
        ex = Explorer(assume, evs, self.max_paths, self.path_z3_ms)
        ex.hunt = Hunter(self, assume, evs, seed) if getattr(self, "hunting", True) else None
        p = Patch(self.stubs, self.poly_roots, self.root_scalar, self.consts, self.replace)
        with p:
            ex.reset = p.reset

            def go():
                return self.body(Scope(ex, p))
            paths = ex.run(go)
        reached = 0
        for i, path in enumerate(paths):
            where = "; ".join(path.describe())[:400]
            conds = assume + path.conds
            live = path.samples or project(path.conds, conds, evs)
            if live:
                reached += 1
            if isinstance(path.exc, T.Unsupported):
                recs.append(Record(self.name, "symbolic execution", where, "unsupported", "", str(path.exc)[:200],
                                   live[0].sample if live else None, None, functions=self.functions))
                recs[-1].more = [e.sample for e in live[1:3]]
                continue
            if path.exc is not None:
                ok = self.raises(path) if self.raises else False
                if ok is True:
                    recs.append(Record(self.name, f"raises {type(path.exc).__name__} only when allowed", where, "proved",
                                       "smt", functions=self.functions))
                else:
                    st = "refuted" if live else "undecided"
                    recs.append(Record(self.name, "does not raise", where, st, "exception",
                                       f"{type(path.exc).__name__}: {path.exc}"[:200] + " | " + (path.tb or "")[-300:],
                                       live[0].sample if live else None, None, functions=self.functions))
                continue
            sub = equalities(path.conds, assume)
            nodes = [o[1] for o in path.obligations]
            if sub:
                try:
                    nodes = T.substitute(nodes, sub)
                    conds = T.substitute(conds, sub)
                except ZeroDivisionError:
                    pass
            prover = Prover(conds, live, budget=self.budget, seed=seed, z3_ms=self.z3_ms)
            for ob, node in zip(path.obligations, nodes):
                name, _, kind = ob
                if deadline and time.time() > deadline:
                    recs.append(Record(self.name, name, where, "undecided", "", "time budget", functions=self.functions))
                    continue
                if kind == "zero":
                    r = prover.zero(node)
                    prover.alg.work = 0
                else:
                    r = prover.true(node)
                    if r.status == "undecided" and getattr(ob, "proof", None):
                        r = hinted(prover, ob.proof, r)
                st = r.status
                if st == "refuted" and r.sample is None:
                    st = "undecided"
                recs.append(Record(self.name, name, where, st, r.how, r.note, r.sample, r.deviation, self.functions))
                if st == "undecided" and r.sample is None and live:
                    recs[-1].sample = live[0].sample
        if ex.truncated:
            recs.append(Record(self.name, "path enumeration", "", "undecided", "", f"more than {self.max_paths} paths",
                               functions=self.functions))
        if not reached and paths:
            recs.append(Record(self.name, "reachability", "", "undecided", "", "no path is witnessed by a sample",
                               functions=self.functions))
        self.npaths = len(paths)
        n = sum(1 for r in recs if r.status in ("proved", "refuted", "undecided"))
        if n < self.min_obligations and not any(r.status == "unsupported" for r in recs):
            recs.append(Record(self.name, "obligation count", "", "undecided", "", f"only {n} obligations generated",
                               functions=self.functions))
        return recs


def hinted(prover, proof, r):
    t0 = time.time()
    budget, prover.alg.budget = prover.alg.budget, max(prover.alg.budget, 60_000_000)
    try:
        note = proof(prover)
    except (bernstein.Fail, NeedSign, Budget, ZeroDen, ZeroDivisionError) as e:
        r.note += f"; {type(e).__name__} {e}"[:120]
        return r
    finally:
        STATS["time"] += time.time() - t0
        prover.alg.budget, prover.alg.work = budget, 0
    STATS["bernstein"] = STATS.get("bernstein", 0) + 1
    return Result("proved", "bernstein", note=note)


def equalities(conds, assume=()):
    out = {}
    ids = {c.id for c in list(conds) + list(assume)}
    extra = [T.rel(c.args[0], "==") for c in conds if c.op == "rel" and c.val == "<=" and
             T.rel(T.neg(c.args[0]), "<=").id in ids]
    for c in list(conds) + extra:
        if c.op == "rel" and c.val == "==":
            x = c.args[0]
            if x.op == "var":
                out[x] = T.ZERO
            elif x.op == "add" and len(x.args) == 2 and x.args[1].op == "const":
                k = -x.args[1].val
                y = x.args[0]
                if y.op == "mul" and len(y.args) == 2 and y.args[0].op == "const" and y.args[1].op == "var":
                    out[y.args[1]] = T.const(k / y.args[0].val)
                elif y.op == "var":
                    out[y] = T.const(k)
            elif x.op == "add" and len(x.args) == 2 and all(a.op in ("var", "mul") for a in x.args):
                # v - w == 0
                a, b = x.args
                for u, w in ((a, b), (b, a)):
                    if u.op == "var" and u not in out:
                        out[u] = T.neg(w)
                        break
    return out


def project(conds, every, evs):
    """samples moved onto the equalities of a path that random samples do not meet (v == 0, v == constant, v == w)"""
    sub = equalities(conds)
    if not sub:
        return []
    out = []
    for e in evs:
        s = dict(e.sample)
        try:
            for v, w in sub.items():
                s[v.val] = float(Evaluator(s)(w))
            f = Evaluator(s)
            if all(f(c) is True for c in every):
                out.append(f)
        except Exception:
            continue
    return out


def opaque(name, *a):
    """application of an uninterpreted function (a callee known only through its contract)"""
    arr = any(isinstance(x, T.SymArr) for x in a)
    n = T.mk("fn", [N(x) for x in a], "u_" + name)
    return T.SymArr(n) if arr else T.Sym(n)
