"""C20 purity: no state, no mutation, element-wise on arrays"""
import importlib
import types
from .base import *
from .orbits import *
from .. import geo, pristine
from ..vc import Scope

OTHERS = [f"c{i:02d}" for i in range(1, 23) if i != 20]


# ------------------------------------------------------------------ frame
def freeze(v, depth=0, seen=None):
    """content of package state as a nested tuple"""
    seen = {} if seen is None else seen
    if isinstance(v, (int, float, str, bool, type(None), complex, np.generic)):
        return v if v == v else "nan"
    if isinstance(v, T.Sym):
        return "sym", v.n.id
    if isinstance(v, T.SymC):
        return "symc", v.re.id, v.im.id
    if id(v) in seen or depth > 8:
        return "seen"
    seen[id(v)] = v
    f = lambda x: freeze(x, depth + 1, seen)
    if isinstance(v, np.ndarray):
        return "array", v.shape, tuple(f(x) for x in v.ravel().tolist())
    if isinstance(v, (list, tuple)):
        return type(v).__name__, tuple(f(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return "set", len(v), tuple(sorted(str(x) for x in v))
    if isinstance(v, dict):
        return "dict", tuple((str(k), f(x)) for k, x in v.items())
    if isinstance(v, types.FunctionType):
        if not (v.__module__ or "").startswith("kerrgeopy"):
            return "fn", id(v)
        cells = []
        for c in v.__closure__ or ():
            try:
                cells.append(f(c.cell_contents))
            except ValueError:
                cells.append("empty")
        return "fn", id(v), f(v.__defaults__), f(v.__kwdefaults__), f(v.__dict__), tuple(cells)
    if isinstance(v, type):
        if v.__module__.startswith("kerrgeopy"):
            return "class", id(v), tuple((k, f(x)) for k, x in vars(v).items() if not k.startswith("__"))
        return "type", id(v)
    if hasattr(v, "cache_info"):
        return "cache", tuple(v.cache_info())
    if isinstance(v, (staticmethod, classmethod)):
        return "method", f(v.__func__)
    if type(v).__module__.startswith("kerrgeopy"):
        return "object", id(v), f(v.__dict__)
    return "id", id(v)


def state(mods):
    seen = {}
    return {m: {k: freeze(v, 0, seen) for k, v in vars(mod).items() if not (k.startswith("__") and k.endswith("__"))} for m, mod in mods.items()}


def differences(x, y):
    out = []
    for m in x:
        for k in set(x[m]) | set(y[m]):
            if x[m].get(k) != y[m].get(k):
                out.append(f"kerrgeopy.{m}.{k}")
    return out


class FrameVC(VC):
    """the calls of another property's VC, made twice on the same symbolic inputs: same outcome and results, no state left behind"""

    def __init__(self, prop, vc):
        self.__dict__.update(vc.__dict__)
        self.inner = vc
        self.name = f"twice: {prop}, {vc.name}"
        self.body = self.twice
        self.nsamples = vc.nsamples if prop == "C19" else min(vc.nsamples, 4)
        self.raises = None
        self.min_obligations = 1
        self.fixed_samples = ()
        self.concretize = None
        self.hunting = False

    def twice(self, K):
        ex = K.ex
        before = state(K.patch.mods)
        runs = []
        for _ in range(2):
            ex.obls = []
            try:
                self.inner.body(K)
                res = "returns"
            except T.Unsupported:
                raise
            except Exception as e:
                res = f"raises {type(e).__name__}"
            runs.append((res, ex.obls))
        ex.obls = []
        after = state(K.patch.mods)
        d = differences(before, after)
        if d:
            raise T.Unsupported("package state after the calls differs from before: " + ", ".join(d[:4]))
        (r1, o1), (r2, o2) = runs
        K.true("same outcome both times", T.TRUE if r1 == r2 and len(o1) == len(o2) else T.FALSE)
        n = 0
        for (a, x, k), (b, y, _) in zip(o1, o2):
            if x is y:
                n += 1
            elif k == "zero":
                K.eq(f"second time: {b}", x, y)
            else:
                # a condition built anew: both must hold or fail together
                K.true(f"second time: {b}", T.bor(T.band(x, y), T.band(T.bnot(x), T.bnot(y))))
        K.ok(f"{n} results are the same terms both times")
        K.ok("module, class, function-default and closure state is unchanged")


# ------------------------------------------------------------------ arrays
def array_body(kd, group):
    """functions of Mino time evaluated on an array: the generic element is the scalar value; evaluation changes nothing"""
    ARR = T.SymArr(LAM.n)
    names, get = GROUPS[group]

    def b(K):
        o = kd.build(K)
        attrs = {k: freeze(v) for k, v in vars(o).items()}
        fs = get(K, o, kd)
        for n, f in zip(names, fs):
            v = f(LAM)
            K.eq(f"{group} {n}: element of the array", f(ARR), v)
            K.eq(f"{group} {n}: again", f(LAM), v)
        for n, f, g in zip(names, fs, get(K, o, kd)):
            K.eq(f"{group} {n}: made again", g(LAM), f(LAM))
        now = {k: freeze(v) for k, v in vars(o).items()}
        K.true("attributes of the orbit", T.TRUE if all(now.get(k) == v for k, v in attrs.items()) else T.FALSE)
    return b


TRPH = ("t", "r", "theta", "phi")
GROUPS = {"trajectory": (TRPH, lambda K, o, kd: o.trajectory()),
          "trajectory with phases": (TRPH, lambda K, o, kd: o.trajectory(ZERO)),
          "trajectory function": (TRPH, lambda K, o, kd: kd.trajectory(K)),
          "trajectory_deltas": (("t_r", "t_theta", "phi_r", "phi_theta"), lambda K, o, kd: o.trajectory_deltas()),
          "four_velocity": (TRPH, lambda K, o, kd: o.four_velocity()),
          "numerical_four_velocity": (TRPH, lambda K, o, kd: o.numerical_four_velocity(dx=var("dx")))}


FUNCS = ["every function called by the VCs of the other properties"]


# ------------------------------------------------------------------ histories
def tup(v):
    return {"t": [float(x) for x in v]}


def variants(rng, q):
    """parameter sets near to or permutations of q"""
    a, p, e, x = q
    d = rng.choice([1e-3, 1e-6, 1e-9, 1e-4])
    return [q, rng.choice([(a * (1 + d), p, e, x), (a, p * (1 + d), e, x), (a, p, e * (1 - d), x), (a, p, e, x * (1 - d)), (a, p, e, -x if p > 13 else x * .99),
                           (e, p + 3, a, x) if 0 < a < .9 else (a, p + 1, e, x), (-a, p, e, -x)])]


def stable_ops(rng, q, slot):
    a, p, e, x = q
    t = rng.choice([0.3, {"a": [0.1, 0.7, -0.4]}, {"a": [0.7, 0.1, -0.4]}, {"a": [1, 0, 2], "dtype": "int64"}, {"np": 0.3}, 1, 1.0, {"a": [0.1, 0.7, -0.4 + 1e-7]}])
    ph = tup(rng.choice([(0, 0, 0, 0), (1, 2, 3, 4), (0.1, 0.2, 0.3, 0.4), (1, 2, 3, 4 + 1e-6), (0.1, 0.2 + 2 * math.pi, 0.3, 0.4)]))
    st = q if a >= 0 else (-a, p, e, -x)
    c = [float(v) for v in spec.constants(*st, 25)]
    rr = [float(v) for v in spec.radial_roots(*st, c)]
    call = lambda n, *k, **kw: ["call", n, list(k), kw]
    new = rng.choice([["new", slot, "stable.StableOrbit", [a, p, e, x], {}], ["new", slot, "stable.StableOrbit", [a, p, e, x, ph], {}],
                      ["new", slot, "stable.StableOrbit", [a, p, e, x, ph, 1e6, 10], {}], ["new", slot, "stable.StableOrbit.from_constants", [st[0], *c], {}]
                      if False else ["new", slot, "stable.StableOrbit", [a, p, e, x], {"M": 1e6, "mu": 5}]])
    opt = [call("constants." + n, *st) for n in ("energy", "angular_momentum", "carter_constant", "constants_of_motion", "stable_radial_roots", "stable_polar_roots",
                                                "is_stable")]
    opt += [call("constants.separatrix", st[0], st[2], st[3]), call("constants.apex_from_constants", st[0], *c), call("constants.plunging_radial_roots", st[0] or .3, *c),
            call("constants.scale_constants", tup(c), 1e6, 10), call("constants.stable_radial_roots", *st, {"t": c}), call("constants.stable_polar_roots", *st, {"t": c})]
    opt += [call("frequencies." + n, *st) for n in ("r_frequency", "theta_frequency", "phi_frequency", "gamma", "mino_frequencies", "fundamental_frequencies")]
    opt += [call("frequencies." + n, *st, {"t": c}) for n in ("r_frequency", "theta_frequency", "phi_frequency", "gamma")]
    opt += [call("units.time_in_seconds", p, 1e6), call("units.distance_in_km", p, 1e6), call("units.distance_in_km", {"a": [1.0, 2.0]}, 1e6), call("units.energy_in_joules", e, 10),
            call("units.frequency_in_mHz", e, 1e6), call("units.time_in_days", p, 1e5)]
    # failing calls
    opt += [call("constants.energy", 1.5, p, e, x), call("constants.separatrix", st[0], 1.3, st[3]), call("frequencies.mino_frequencies", st[0], 2.0, e, st[3]),
            ["new", "bad", "stable.StableOrbit", [st[0], 1.5, e, st[3]], {}], call("constants.constants_of_motion", st[0], 1.0, e, st[3])]
    do = lambda n, *k, times=None, **kw: ["do", slot, n, list(k), kw, times]
    opt += 2 * [do("trajectory", times=t), do("trajectory", ph, times=t), do("four_velocity", times=t), do("four_velocity", ph, times=t), do("trajectory_deltas", times=t),
                do("trajectory_deltas", ph, times=t), do("numerical_four_velocity", times=t), do("numerical_four_velocity", 1e-3, ph, times=t), do("mino_frequencies"),
                do("fundamental_frequencies"), do("constants_of_motion"), do("constants_of_motion", "mks"), do("mino_frequencies", "cgs"), do("fundamental_frequencies", "mks"),
                do("trajectory", ph, "mks", "mks", times=t), do("trajectory", None, "km", "days", times=t), do("trajectory", None, "cgs", "bogus", times=t),
                do("constants_of_motion", "bogus"), do("_four_velocity_norm", times=0.4), do("_numerical_four_velocity_norm", times=0.4),
                do("is_visible", {"a": [[5.0, 1.0, 2.0], [-5.0, 0.1, 0.2], [0.3, 0.2, 0.1]]}, 30, -60), do("four_velocity", {"t": [1.0, 2.0]}, times=t)]
    return new, opt


def plunge_ops(rng, q, slot):
    a, E, L_, Q = (float(v) for v in q)
    t = rng.choice([0.05, {"a": [0.01, 0.07, 0.03]}, {"a": [0.07, 0.01]}, 0.0])
    ph = tup(rng.choice([(0, 0, 0, 0), (0.1, 0.2, 0.3, 0.4), (0.1, 0.2, 0.3, 0.4 + 1e-6), (1, 2, 3, 4)]))
    call = lambda n, *k, **kw: ["call", n, list(k), kw]
    do = lambda n, *k, times=None, **kw: ["do", slot, n, list(k), kw, times]
    new = rng.choice([["new", slot, "plunge.PlungingOrbit", [a, E, L_, Q], {}], ["new", slot, "plunge.PlungingOrbit", [a, E, L_, Q, ph], {}],
                      ["new", slot, "plunge.PlungingOrbit", [a, E, L_, Q, ph, 1e6, 10], {}]])
    opt = [call("constants.plunging_radial_roots", a, E, L_, Q), call("frequencies.plunging_mino_frequencies", a, E, L_, Q),
           ["new", "bad", "plunge.PlungingOrbit", [0, E, L_, Q], {}]]
    opt += 2 * [do("trajectory", times=t), do("trajectory", ph, times=t), do("four_velocity", times=t), do("four_velocity", ph, times=t), do("trajectory_deltas", times=t),
                do("trajectory_deltas", ph, times=t), do("numerical_four_velocity", times=t), do("constants_of_motion"), do("trajectory", ph, "mks", "mks", times=t),
                do("constants_of_motion", "cgs")]
    return new, opt


def ics_ops(rng, q, slot):
    """an orbit from initial conditions of a stable orbit"""
    a, p, e, x = q
    a, x = abs(a), (x if a >= 0 else -x)
    e = max(e, 0.05)
    st = (a, p + 1, e, x)
    if abs(x) > 0.999 or a < 0.01 or abs(x) < 0.1:
        return None
    c = [float(v) for v in spec.constants(*st, 25)]
    r0 = (st[1] / (1 - e) + st[1] / (1 + e)) / 2 * rng.choice([1, 1 + 1e-6])
    th = math.pi / 2 - 0.3 * math.acos(abs(x))
    c2 = math.cos(th) ** 2
    sg = r0 * r0 + a * a * c2
    R, Z = spec.R(a, *c, r0), spec.Z(a, *c, math.cos(th))
    if R <= 0 or Z <= 0:
        return None
    u = [spec.dt(a, c[0], c[1], r0, c2) / sg, rng.choice([1, -1]) * math.sqrt(R) / sg, rng.choice([1, -1]) * math.sqrt(Z) / (sg * math.sin(th)), spec.dphi(a, c[0], c[1], r0, c2) / sg]
    pos, vel = tup((0.5, r0, th, 0.2)), tup(u)
    call = lambda n, *k, **kw: ["call", n, list(k), kw]
    do = lambda n, *k, times=None, **kw: ["do", slot, n, list(k), kw, times]
    new = ["new", slot, "orbit.Orbit", [a, pos, vel], {}]
    opt = [call("initial_conditions.constants_from_initial_conditions", a, pos, vel), call("initial_conditions.is_stable", a, pos, vel),
           call("initial_conditions.stable_orbit_initial_phases", a, pos, vel), do("trajectory", times=0.3), do("four_velocity", times=0.3), do("trajectory_deltas", times=0.3),
           do("trajectory", tup((0, 0, 0, 0)), times={"a": [0.1, 0.2]}), ["new", "bad", "orbit.Orbit", [a, pos, tup([v * 1.1 for v in u])], {}],
           do("numerical_four_velocity", times=0.3), do("constants_of_motion")]
    return new, opt


def history(rng):
    ops = []
    if rng.random() < 0.7:
        k = rng.randrange(16)
        q = stable_orbit(rng, k, 0.8)
        if q[1] > 200:
            q = (q[0], 30.0, q[2], q[3])
        vs = variants(rng, q)
        vs = [v for v in vs if spec.stable(abs(v[0]), v[1] - 0.05, v[2], v[3] if v[0] >= 0 else -v[3])] or [q]
        gens = [stable_ops(rng, v, f"s{i}") for i, v in enumerate(vs)]
        g = ics_ops(rng, q, "i0") if rng.random() < .5 else None
        if g:
            gens.append(g)
    else:
        q = c09.sample(rng, rng.choice(["low", "complex", "high"]))
        if q is None:
            return None
        q = q[0]
        d = rng.choice([1e-6, 1e-9, 1e-4])
        gens = [plunge_ops(rng, q, "p0"), plunge_ops(rng, (q[0], q[1], q[2], q[3] * (1 + d)), "p1")]
    ops += [g[0] for g in gens]
    pool = [o for g in gens for o in g[1]]
    more = [rng.choice(pool) for _ in range(10)]
    # the same operation for each parameter set, and repeats
    i = rng.randrange(min(len(g[1]) for g in gens))
    more += [g[1][i] for g in gens] + more[:2]
    rng.shuffle(more)
    return ops + more


def near(rng):
    """clusters of parameter sets that differ little (or by a sign, or from an exact special value); each operation runs on all of them in one process"""
    ops = []
    bases = []
    while len(bases) < 3:
        q = stable_orbit(rng, rng.randrange(16), .8)
        if q[0] >= 0 and 1.5 < q[1] < 200 and spec.stable(q[0], q[1] - .05, q[2], q[3]):
            bases.append(q)
    pl = None
    while pl is None:
        pl = c09.sample(rng, rng.choice(["low", "complex", "high"]))
    pl = tuple(float(v) for v in pl[0])
    nb = 4
    call = lambda n, *k: ["call", n, list(k), {}]
    t = {"a": [0.1, 0.2]}

    def move(v, which, d):
        return tuple(w * (1 + d) if i in which and w else w + abs(d) * 1e-3 if i in which else w for i, w in enumerate(v))
    for q in bases + [pl]:
        cl = [q]
        for _ in range(nb):
            d = 10 ** rng.uniform(-13, -1.5) * rng.choice([1, -1])
            which = rng.sample(range(4), rng.choice([1, 1, 2, 4]))
            n = move(q, which, d)
            if q is not pl:
                a, p, e, x = n
                n = (min(abs(a), .9999), p, min(abs(e), .95), max(-1, min(1, x)))
                if not spec.stable(n[0], n[1] - .02, n[2], n[3]):
                    n = q
            cl.append(n)
        ph = (rng.uniform(0, 6), rng.uniform(0, 6), rng.uniform(0, 6), rng.uniform(0, 6))
        ch = lambda cls, arg, name, *m, times=None: ["chain", cls, list(arg), {}, name, list(m), times]
        for g, n in enumerate(cl):
            if q is pl:
                o = [call("constants.plunging_radial_roots", *n), call("frequencies.plunging_mino_frequencies", *n)]
                o += [ch("plunge.PlungingOrbit", n, "trajectory", times=t), ch("plunge.PlungingOrbit", n, "four_velocity", times=t)]
            else:
                a, p, e, x = n
                o = [call("constants." + f, *n) for f in ("energy", "angular_momentum", "carter_constant", "constants_of_motion", "stable_radial_roots", "stable_polar_roots",
                                                          "is_stable")]
                o += [call("constants.separatrix", a, e, x)]
                o += [call("frequencies." + f, *n) for f in ("r_frequency", "theta_frequency", "phi_frequency", "gamma", "mino_frequencies", "fundamental_frequencies")]
                o += [call("units.time_in_seconds", p, 1e6 * (1 + e)), call("units.distance_in_km", p, 1e6 * (1 + e)), call("units.energy_in_joules", p, 10 + e),
                      call("units.frequency_in_mHz", p, 1e6 * (1 + e)), call("constants.scale_constants", tup(n[:3]), 1e6, 10 + e)]
                shift = tup([v * (1 + (g > 0) * 10 ** rng.uniform(-12, -2)) for v in ph])
                o += [ch("stable.StableOrbit", n, "trajectory", times=t), ch("stable.StableOrbit", n, "four_velocity", times=t),
                      ch("stable.StableOrbit", n, "trajectory_deltas", times=t), ch("stable.StableOrbit", [*n, shift], "trajectory", times=t),
                      ch("stable.StableOrbit", n, "trajectory", shift, times=t)]
                cs = [float(v) for v in spec.constants(a, p, e, x, 20)] if g == 0 else [v * (1 + 10 ** rng.uniform(-13, -8)) for v in cs]
                o += [call("constants.apex_from_constants", a, *cs), call("constants.plunging_radial_roots", a or .3, *cs)]
            ops += [(g, v) for v in o]
    rng.shuffle(ops)
    return ops


class C20(Prop):
    id = "C20"
    explanation = ("Every VC of the other properties is executed twice in succession on the same symbolic inputs, on every path (success and ValueError): the second run "
                   "must produce the same terms and outcomes and the state of the package (module globals, classes, defaults, closures, caches) must be the same before and "
                   "after, so by induction no history of these calls influences a result. Functions of Mino time are executed on a generic array element and proved equal "
                   "to the scalar value. Random concrete histories over the public API are compared call by call with the same call in a fresh process.")
    assumptions = ["numpy and scipy functions used are pure and element-wise", "arrays are represented by a generic element; reductions over an array are rejected",
                   "functions outside the other VCs (plot, animate, fast_separatrix) only through histories (bounded)"]
    monitor_seconds = 70
    vc_seconds = 330

    def vcs(self, tier):
        out = []
        for kd in kinds():
            def smp(rng, kd=kd):
                s = kd.sampler(rng)
                return s and dict(s, dx=10 ** rng.uniform(-3, -1))
            for g in GROUPS:
                out.append(kd.vc("arrays, " + g, ["StableOrbit", "PlungingOrbit", "Orbit", "KerrSpacetime.four_velocity", "stable_trajectory", "plunging_trajectory"],
                                 array_body(kd, g), sampler=smp, min_obligations=13, max_paths=64))
        for m in OTHERS:
            p = importlib.import_module("kv.props." + m).PROP
            for vc in p.vcs(tier):
                out.append(FrameVC(p.id, vc))
        return out

    def cases(self, rng, tier):
        for i in range(1600 if tier == "quick" else 20000):
            if i % 16 == 3:
                for c in concrete_cases(rng, 1, rng.choice("ssscrh")):
                    yield dict(c, lam=[mino_time(rng, 1) for _ in range(rng.choice([1, 2, 5]))])
                continue
            if i % 12 == 1:
                yield dict(kind="near", ops=near(rng))
                continue
            h = history(rng)
            if h:
                yield dict(kind="history", ops=h)

    _pool = None

    def check(self, inp):
        if inp["kind"] not in ("history", "near"):
            return array_check(inp)
        if C20._pool is None:
            C20._pool = pristine.Pool(max(2, min(7, (os.cpu_count() or 2) - 1)))
        ops = inp["ops"]
        if inp["kind"] == "near":
            # operations of one group never meet those of the others in the reference processes
            groups = sorted({g for g, _ in ops})
            res = C20._pool([[o for _, o in ops]] + [[o for h, o in ops if h == g] for g in groups])
            out, changed = res[0]
            ref = {g: iter(r[0]) for g, r in zip(groups, res[1:])}
            want = [next(ref[g]) for g, _ in ops]
            ops = [o for _, o in ops]
        else:
            build = {o[1]: o for o in ops if o[0] == "new"}
            keys = {}
            for op in ops:
                keys.setdefault(json.dumps(op), [build[op[1]], op] if op[0] == "do" else [op])
            res = C20._pool([ops] + list(keys.values()))
            out, changed = res[0]
            done = {k: r[0][-1] for k, r in zip(keys, res[1:])}
            want = [done[json.dumps(op)] for op in ops]
        msgs = [f"module data changed: {c}" for c in changed]
        for op, r, w in zip(ops, out, want):
            if r[0] == "skip":
                continue
            if r[-1]:
                msgs.append(f"{short(op)} changed its {r[-1]}")
            if r[0] == "ok" and isinstance(r[1], dict) and ("inconsistent" in r[1] or "argument changed" in r[1]):
                msgs.append(f"{short(op)}: {str(r[1])[:300]}")
            elif not pristine.same(r[:2], w[:2], 1e-15 if op[:2] == ["call", "constants.separatrix"] else 1e-12):
                msgs.append(f"{short(op)} after other calls: {str(r[:2])[:200]}, in a fresh process: {str(w[:2])[:200]}")
        return msgs[:6]


def short(op):
    return json.dumps(op)[:160]


def array_check(inp):
    o = Concrete(inp)
    if not o.ok:
        return []
    orb = o.orbit(o.q)
    out = []
    lam = np.array([float(x) for x in np.atleast_1d(inp["lam"])] + [0.0])
    lam = o.safe(lam)
    if not len(lam):
        return []
    arrays = [lam, lam[:1], np.array([]), lam.reshape(1, -1), np.array(lam[0])]
    if o.stable:
        arrays += [np.array([0, 1, -2]), np.concatenate([lam, lam[::-1]]), (lam[0] + np.linspace(0, 1, 101))]
    d = orb.trajectory_deltas()
    sets = [("trajectory", orb.trajectory()), ("trajectory function", o.function(o.q)), ("four_velocity", orb.four_velocity()), ("numerical_four_velocity", orb.numerical_four_velocity(1e-4)),
            ("trajectory_deltas", d)]
    for nm, fs in sets:
        for i, f in enumerate(fs):
            for A_ in arrays:
                keep = A_.copy()
                v = f(A_)
                if not np.array_equal(A_, keep):
                    out.append(f"{nm}[{i}] changed the array of times")
                    A_ = keep
                if np.shape(v) != A_.shape:
                    out.append(f"{nm}[{i}]: shape {np.shape(v)} for times of shape {A_.shape}")
                    continue
                w = np.array([float(f(x)) for x in A_.ravel().tolist()]).reshape(A_.shape)
                v = np.asarray(v, float)
                with np.errstate(all="ignore"):
                    ok = (abs(v - w) <= (1e-9 if nm != "numerical_four_velocity" else 1e-4) * (1 + abs(w))) | (np.isnan(v) & np.isnan(w)) | (v == w)
                    if i in (1, 2) and nm == "four_velocity":
                        # at turning points the square root magnifies rounding
                        ok |= abs(v - w) < 1e-6
                if not np.all(ok):
                    out.append(f"{nm}[{i}] on {A_.ravel()[:5].tolist()}...: {v.ravel()[:5].tolist()}, one by one {w.ravel()[:5].tolist()}")
    if not out:
        sets = [("trajectory", orb.trajectory(), 1e-9, 1e-8), ("trajectory function", o.function(o.q), 1e-9, 1e-8), ("four_velocity", orb.four_velocity(), 1e-8, 1e-6),
                ("numerical_four_velocity", orb.numerical_four_velocity(1e-2), 1e-8, 1e-6)]
        out = vectorized(sets, o.M, o.sa, inp, True) + vectorized([("trajectory_deltas", [d[0], d[2]], 1e-8, 1e-7)], o.M, o.sa, inp, phase=orb.upsilon_r) + \
            vectorized([("trajectory_deltas", [d[1], d[3]], 1e-8, 1e-7)], o.M, o.sa, inp, phase=orb.upsilon_theta)
    return out[:6]


import json
import os
from . import c09
PROP = C20()
