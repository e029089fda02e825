"""common parts of property modules"""
import math
import zlib
import numpy as np
from .. import terms as T, spec, patch
from ..vc import VC, S, N, var, fn, sqrt, lt, le, PI

TRUSTED = [
    "CPython executes the package's bytecode on the symbolic objects as it does on floats (operator dispatch); the "
    "package source is imported unmodified from /repo on every run",
    "kv engine: term construction rules (kv/terms.py), normal form (kv/algebra.py), path explorer (kv/explore.py)",
    "z3 for path feasibility and sign side conditions; sympy.factor_list; mpmath for refutation",
    "floating point is treated as real arithmetic; NaN, infinities and signed zeros are outside the proof",
]


class Prop:
    level = "proof"
    trusted = TRUSTED
    assumptions = []
    explanation = ""
    monitor_seconds = 30
    vc_seconds = 200

    def vcs(self, tier):
        return []

    def cases(self, rng, tier):
        return iter(())

    def check(self, inp):
        return []


def kg():
    return patch.load()


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    except Exception:
        return False
    return False


def outcome(f, *a, **k):
    """('ok', value) or ('exc', type name)"""
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "exc", type(e).__name__ + ": " + str(e)


def close(x, y, rel=1e-9, abs_=1e-12):
    x, y = float(x), float(y)
    if math.isnan(x) or math.isnan(y):
        return False
    return abs(x - y) <= abs_ + rel * max(abs(x), abs(y))


def bad(name, x, y, rel=1e-9, abs_=1e-12):
    return None if close(x, y, rel, abs_) else f"{name}: got {float(x)!r}, contract requires {float(y)!r}"


# contract C19: the package's elliptic helpers are Legendre's integrals
ELL = {"_ellipeinc": lambda phi, m: fn("Einc", phi, m), "_ellippi": lambda n, m: fn("Pi", n, m),
       "_ellippiinc": lambda phi, n, m: fn("Piinc", phi, n, m)}


# ------------------------------------------------------------------ stable orbits, generic and special
def stable_orbit(rng, i, e_max=0.9, polar=False, marginal=False, negative=False, circular=True, schwarzschild=True,
                 tiny_x=False):
    """(a,p,e,x) well inside the domain; i selects special cases in turn"""
    k = i % 16
    a = rng.uniform(0.02, 0.97)
    e = rng.uniform(0.01, e_max)
    x = rng.uniform(0.05, 0.999) * rng.choice([1, -1])
    if k == 1 and schwarzschild:
        a = 0.0
    elif k == 2 and circular:
        e = 0.0
    elif k == 3:
        x = float(rng.choice([1, -1]))
    elif k == 4:
        a = rng.choice([0.99, 0.998, 0.9999])
    elif k == 5:
        a = rng.choice([0.001, 0.01, 0.003])
    elif k == 6:
        e = rng.choice([1e-3, 0.01, 0.05])
    elif k == 7 and polar:
        x = 0.0
    elif k == 8 and marginal:
        e = 1.0
    elif k == 9 and schwarzschild:
        a = 0.0
        x = rng.choice([1.0, -1.0, 0.3, -0.6])
    elif k == 10 and circular:
        e = 0.0
        x = rng.choice([1.0, -1.0, 0.5, -0.2])
    elif k == 11 and polar:
        x = 0.0
        e = rng.choice([0.0, 0.3, 1.0 if marginal else 0.6])
    elif k == 12:
        e = rng.uniform(0.85, max(e_max, 0.9)) if e_max >= 0.9 else e_max
    elif k == 13 and circular and schwarzschild:
        a = e = 0.0
    elif k == 14 and marginal:
        e = 1.0
        x = rng.choice([1.0, -1.0, 0.4])
    ps = spec.separatrix(a, e, x, 1e-11)
    p = ps + rng.choice([rng.uniform(0.02, 0.3), rng.uniform(0.3, 3), rng.uniform(1, 12), rng.uniform(5, 60)])
    if k == 15:
        p = ps + rng.choice([100.0, 400.0])
    if negative and a:
        a, x = -a, -x
    return a, p, e, x


def mino_time(rng, size=3):
    """Mino times of every magnitude, mostly moderate"""
    k = rng.random()
    if k < .6:
        return rng.uniform(-size, size)
    return rng.choice([-1, 1]) * 10 ** rng.uniform(*((-4, 0) if k < .7 else (0.5, 2.2)))


def std(a, x):
    """spec of the sign convention: non-negative spin, x relative to it"""
    return (-a, -x) if a < 0 else (a, x)


def stable_sampler(a=(0.05, 0.95), e=(0.05, 0.85), x=(0.1, 0.95), sgn=None, extra=None):
    """sampler of VC variables a,p,e,x (p outside the separatrix), psep below p"""
    def pick(rng, r):
        return rng.uniform(*r) if isinstance(r, tuple) else r

    def f(rng):
        A, E_, X = pick(rng, a), pick(rng, e), pick(rng, x)
        s = sgn if sgn is not None else rng.choice([1, -1])
        X = X * s
        ps = spec.separatrix(A, E_, X, 1e-9)
        d = dict(a=A, e=E_, x=X, p=ps + rng.choice([rng.uniform(0.05, 1), rng.uniform(1, 10)]), psep=ps)
        if extra:
            d.update(extra(rng))
        return d
    return f


def edge(rng, lo, hi, tiny=1e-4, share=0.4):
    """uniform in [lo,hi], in a share of the draws close to an end (distance logarithmically distributed down to tiny)"""
    u = rng.random()
    if u > share:
        return rng.uniform(lo, hi)
    d = (hi - lo) * 10 ** rng.uniform(math.log10(tiny), -0.3)
    return lo + d if u < share / 2 else hi - d


# ---------------------------------------------------------------- functions of Mino time, one time or many
def safe_times(M, a, lam):
    """Mino times at which r is away from the horizons"""
    lam = np.asarray(lam, float)
    r, th = M.r_theta(lam)
    d = math.sqrt(1 - a**2)
    return lam[(np.abs(r - 1 - d) > 0.05 * min(1, d)) & (np.abs(r - 1 + d) > 0.05 * min(1, d)) & (r > 0.02)]


def vectorized(sets, M, a, seed, big=False, phase=None):
    """each function of Mino time gives the same values for one time and for arrays of any shape, length, order and number type, and leaves the array alone;
    sets: (name, functions, relative tolerance, absolute tolerance); phase: the functions take the phase, this times Mino time"""
    rng = np.random.default_rng(zlib.crc32(repr(seed).encode()))
    span = 2 * math.pi / min(M.Yr, M.Yth) * (phase or 1)

    def safe_times_of(x):
        x = np.asarray(x)
        return x[np.isin(x / (phase or 1), safe_times(M, a, x / (phase or 1)))]
    pool = safe_times_of(np.concatenate([rng.uniform(-2.5, 2.5, 300) * span, rng.uniform(-9, 9, 60) * span, [0.0]]))
    whole = safe_times_of(np.arange(-40.0, 41.0)).astype(int)
    if not len(pool):
        return []
    long = np.resize(pool, 12007 if big else 1201)
    arrays = [long, np.sort(long)[::-1][:700], np.sort(pool)[:1], rng.permutation(pool)[:12].reshape(-1, 2 if len(pool) % 2 == 0 else 1)]
    arrays.append(rng.permutation(pool)[:arrays[3].size].reshape(arrays[3].shape))
    if len(whole):
        w = rng.permutation(whole)
        arrays += [w[:7], np.sort(w)[:3], np.array(w[0]), w[:2].astype(np.int32)]
    out = []
    for nm, fs, rel, ab in sets:
        for i, f in enumerate(fs):
            before = []
            for A in arrays:
                keep = A.copy()
                v = f(A)
                if not np.array_equal(A, keep):
                    out.append(f"{nm}[{i}] changed the array of times")
                    return out
                if np.shape(v) != A.shape:
                    out.append(f"{nm}[{i}]: shape {np.shape(v)} for times of shape {A.shape}")
                    return out
                before.append((A, v, np.array(v, float)))
            for A, v, old in before:
                if not np.array_equal(np.asarray(v, float), old, equal_nan=True):
                    out.append(f"{nm}[{i}]: the values returned for {A.ravel()[:4].tolist()}... changed with a later call")
                    return out
                ks = range(A.size) if A.size < 8 else [0, 1, A.size - 1] + rng.integers(0, A.size, 6).tolist()
                for k in ks:
                    x = A.ravel()[k].item()
                    g, w = float(old.ravel()[k]), float(f(x))
                    if not (abs(g - w) <= ab + rel * (1 + abs(w)) or g == w or (g != g and w != w)):
                        out.append(f"{nm}[{i}] of {A.size} times of type {A.dtype}: {g!r} at {x!r}, alone {w!r}")
                        return out
            if len(whole):
                x = int(whole[len(whole) // 2])
                g, v = float(f(x)), float(f(float(x)))
                if not (abs(g - v) <= ab + rel * (1 + abs(v)) or g == v or (g != g and v != v)):
                    out.append(f"{nm}[{i}]({x}) = {g!r}, at {float(x)}: {v!r}")
                    return out
    return out


def flat(v):
    """numbers of a result, nested in any way"""
    if isinstance(v, (tuple, list)) or isinstance(v, np.ndarray) and v.ndim:
        return [x for y in v for x in flat(y)]
    return [complex(v)]


def result_of(f, args):
    try:
        return flat(f(*args))
    except (ValueError, TypeError, ArithmeticError) as e:
        return type(e).__name__


def typed(functions, args, rel=1e-11):
    """the same numbers as Python floats, integers, numpy scalars: the same results; functions: (name, function of the numbers)"""
    args = [float(x) for x in args]
    # far from the hole the coefficients of the quartics cancel more digits
    rel = max(rel, min(1e-6, rel * (1 + max(map(abs, args))) ** 1.5))

    def whole(t):
        return [t(x) if x == round(x) else x for x in args]
    kinds = [("numpy float64", [np.float64(x) for x in args])]
    if whole(int) != args or any(isinstance(x, int) for x in whole(int)):
        kinds += [("int", whole(int)), ("one number int", None)]
        if max(map(abs, args)) <= 1000:      # powers of larger numbers do not fit into 64 bits
            kinds += [("numpy int64", whole(np.int64))]
    out = []
    for nm, f in functions:
        want = result_of(f, args)
        for k, v in kinds:
            for i in [None] if v is not None else [j for j, x in enumerate(args) if x == round(x)]:
                a = v if v is not None else [int(x) if j == i else x for j, x in enumerate(args)]
                got = result_of(f, a)
                if isinstance(want, str) or isinstance(got, str):
                    same = want == got
                else:
                    same = len(want) == len(got) and all(x == y or x != x and y != y or abs(x - y) <= rel * (1 + abs(x)) for x, y in zip(want, got))
                if not same:
                    return [f"{nm}{tuple(a)!r} = {got}, {want} for floats ({k})"[:300]]
    return out


def whole_orbit(a, p, e, x, n, marginal=True):
    """a stable orbit with some parameters whole numbers"""
    return (0.0 if n % 2 else a, float(math.ceil(p) + 13 + (10 ** (n % 5) if n % 3 == 0 else 0)), (1.0 if marginal and n % 8 == 5 and x else 0.0) if n % 4 < 2 else e,
            math.copysign(1.0, x) if n % 3 == 1 else (0.0 if n % 8 == 4 and marginal else x))
