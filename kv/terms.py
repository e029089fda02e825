"""Symbolic terms: hash-consed DAG nodes and the number-like objects the real code is run on.

Node        immutable, interned; identity is structural equality
Sym         a real number (wraps a Node); passes as numbers.Number / np.isscalar
SymArr      the same, but behaves like a numpy array (no truth value, not a scalar)
SymC        a complex number re + i*im
SymBool     a condition; bool() asks the running path explorer
"""
import math
import numbers
from fractions import Fraction
import numpy as np


class Unsupported(BaseException):
    """The code did something on a symbolic value that the engine has no semantics for."""


class PathLimit(BaseException):
    pass


class Node:
    __slots__ = ("op", "args", "val", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def mk(op, args=(), val=None):
    key = (op, tuple(a.id for a in args), val)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.val = op, tuple(args), val
        _count[0] += 1
        n.id = _count[0]
        _table[key] = n
    return n


def const(q):
    return mk("const", (), Fraction(q))


ZERO, ONE, MINUS1 = const(0), const(1), const(-1)
PI = mk("pi")


def var(name):
    return mk("var", (), name)


def is_const(n):
    return n.op == "const"


def add(*xs):
    acc = Fraction(0)
    terms = {}
    order = []

    def put(n, c):
        if n.id in terms:
            terms[n.id][1] += c
        else:
            terms[n.id] = [n, c]
            order.append(n.id)

    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x.op == "const":
            acc += x.val
        elif x.op == "add":
            stack.extend(reversed(x.args))
        elif x.op == "mul" and x.args[0].op == "const":
            rest = x.args[1:]
            put(rest[0] if len(rest) == 1 else mk("mul", rest), x.args[0].val)
        else:
            put(x, Fraction(1))
    out = []
    for i in order:
        n, c = terms[i]
        if c == 0:
            continue
        if c == 1:
            out.append(n)
        else:
            out.append(mk("mul", (const(c),) + (n.args if n.op == "mul" else (n,))))
    if acc != 0 or not out:
        out.append(const(acc))
    if len(out) == 1:
        return out[0]
    return mk("add", out)


def mul(*xs):
    acc = Fraction(1)
    fs = {}
    order = []
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x.op == "const":
            acc *= x.val
            continue
        if x.op == "mul":
            stack.extend(reversed(x.args))
            continue
        b, e = (x.args[0], x.val) if x.op == "pow" else (x, 1)
        if b.id in fs:
            fs[b.id][1] += e
        else:
            fs[b.id] = [b, e]
            order.append(b.id)
    if acc == 0:
        return ZERO
    out = []
    again = []
    for i in order:
        b, e = fs[i]
        if e == 0:
            continue
        if b.op == "sqrt" and abs(e) >= 2:
            # sqrt(x)^2 = x where sqrt is real
            q, r = divmod(abs(e), 2)
            s = 1 if e > 0 else -1
            again.append(power(b.args[0], q * s))
            if r:
                out.append(b if s > 0 else mk("pow", (b,), -1))
            continue
        out.append(b if e == 1 else mk("pow", (b,), e))
    if again:
        return mul(const(acc), *again, *out)
    if not out:
        return const(acc)
    if acc != 1:
        if len(out) == 1 and out[0].op == "add":
            # distribute rational constants over sums (keeps linear forms visible)
            return add(*[mul(const(acc), t) for t in out[0].args])
        out.insert(0, const(acc))
    if len(out) == 1:
        return out[0]
    return mk("mul", out)


def power(b, e):
    if e == 0:
        return ONE
    if e == 1:
        return b
    if b.op == "const":
        if b.val == 0 and e < 0:
            raise ZeroDivisionError("symbolic division by zero")
        return const(b.val**e)
    if b.op == "pow":
        return power(b.args[0], b.val * e)
    if b.op == "mul":
        return mul(*[power(x, e) for x in b.args])
    if b.op == "sqrt" and e % 2 == 0:
        return power(b.args[0], e // 2)
    return mul(mk("pow", (b,), e)) if b.op == "sqrt" else mk("pow", (b,), e)


def neg(x):
    return mul(MINUS1, x)


def sub(x, y):
    return add(x, neg(y))


def div(x, y):
    if y.op == "const" and y.val == 0:
        raise ZeroDivisionError("symbolic division by zero")
    return mul(x, power(y, -1))


def _isqrt_exact(q):
    if q < 0:
        return None
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Fraction(a, b)
    return None


def sqrt(x):
    if x.op == "const":
        r = _isqrt_exact(x.val)
        if r is not None:
            return const(r)
    return mk("sqrt", (x,))


# ---------------------------------------------------------------- functions

def linear_pi(n):
    """n == q*pi + rest -> (q, rest)"""
    if n.op == "pi":
        return Fraction(1), ZERO
    if n.op == "mul" and len(n.args) == 2 and n.args[0].op == "const" and n.args[1].op == "pi":
        return n.args[0].val, ZERO
    if n.op == "add":
        q = Fraction(0)
        rest = []
        for t in n.args:
            if t.op == "pi":
                q += 1
            elif t.op == "mul" and len(t.args) == 2 and t.args[0].op == "const" and t.args[1].op == "pi":
                q += t.args[0].val
            else:
                rest.append(t)
        if q:
            return q, add(*rest)
    return Fraction(0), n


def int_pi(n, even):
    """split addends c*int*pi (c an (even) integer) off n -> (integer node, rest)"""
    terms = n.args if n.op == "add" else (n,)
    ints, rest = [], []
    for t in terms:
        if t.op == "mul" and PI in t.args:
            o = [a for a in t.args if a is not PI]
            c = o[0].val if o and o[0].op == "const" else Fraction(1)
            if len(o) == len(t.args) - 1 and c.denominator == 1 and (not even or c.numerator % 2 == 0) \
                    and not all(a.op == "const" for a in o) and all(is_integer_node(a) for a in o):
                ints.append(mul(*o))
                continue
        rest.append(t)
    if not ints:
        return None, n
    return add(*ints), (add(*rest) if rest else ZERO)


def leading_negative(n):
    """syntactic sign used only to put odd/even functions in a standard form"""
    if n.op == "const":
        return n.val < 0
    if n.op == "mul":
        return n.args[0].op == "const" and n.args[0].val < 0
    if n.op == "add":
        return all(leading_negative(t) for t in n.args)
    return False


def fn(name, *args):
    f = _RULES.get(name)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return mk("fn", args, name)


def _free_ints(u):
    """cheap test: does an integer variable occur among the addends' factors"""
    for t in (u.args if u.op == "add" else (u,)):
        if t.op == "mul":
            for a in t.args:
                if a.op == "var" and isinstance(a.val, str) and a.val.startswith("int_"):
                    return "int_"
    return ""


_SIN12 = {0: ZERO, 6: ONE}


def _sin(u):
    if "int_" in _free_ints(u):
        k, u2 = int_pi(u, True)
        if k is not None:
            return fn("sin", u2)
    if u.op == "const" and u.val == 0:
        return ZERO
    q, rest = linear_pi(u)
    if q:
        k = q * 2
        if k.denominator == 1:
            k = k.numerator % 4
            if k == 0:
                return fn("sin", rest)
            if k == 1:
                return fn("cos", rest)
            if k == 2:
                return neg(fn("sin", rest))
            return neg(fn("cos", rest))
        if rest is ZERO and q == Fraction(1, 6):
            return const(Fraction(1, 2))
    if leading_negative(u):
        return neg(fn("sin", neg(u)))
    if u.op == "fn":
        if u.val == "arcsin":
            return u.args[0]
        if u.val == "arccos":
            return sqrt(sub(ONE, power(u.args[0], 2)))
        if u.val == "am":
            return fn("sn", *u.args)
        if u.val == "arctan":
            return div(u.args[0], sqrt(add(ONE, power(u.args[0], 2))))
    return None


def _cos(u):
    if "int_" in _free_ints(u):
        k, u2 = int_pi(u, True)
        if k is not None:
            return fn("cos", u2)
    if u.op == "const" and u.val == 0:
        return ONE
    q, rest = linear_pi(u)
    if q:
        k = q * 2
        if k.denominator == 1:
            k = k.numerator % 4
            if k == 0:
                return fn("cos", rest)
            if k == 1:
                return neg(fn("sin", rest))
            if k == 2:
                return neg(fn("cos", rest))
            return fn("sin", rest)
    if leading_negative(u):
        return fn("cos", neg(u))
    if u.op == "fn":
        if u.val == "arccos":
            return u.args[0]
        if u.val == "arcsin":
            return sqrt(sub(ONE, power(u.args[0], 2)))
        if u.val == "am":
            return fn("cn", *u.args)
        if u.val == "arctan":
            return power(sqrt(add(ONE, power(u.args[0], 2))), -1)
    return None


def _between(lo, u, hi):
    if CTX[0] is None:
        return False
    return decide(band(rel(sub(lo, u), "<="), rel(sub(u, hi), "<=")))


def _odd(name):
    def r(u, *rest):
        if u.op == "const" and u.val == 0:
            return ZERO
        if leading_negative(u):
            return neg(fn(name, neg(u), *rest))
        return None
    return r


def _arccos(u):
    if u is ONE:
        return ZERO
    if u is ZERO:
        return mul(const(Fraction(1, 2)), PI)
    return None


def _arcsin(u):
    if u is ONE:
        return mul(const(Fraction(1, 2)), PI)
    if u is MINUS1:
        return mul(const(Fraction(-1, 2)), PI)
    r = _odd("arcsin")(u)
    if r is not None:
        return r
    if u.op == "fn" and u.val in ("sin", "cos"):
        h = mul(const(Fraction(1, 2)), PI)
        v = u.args[0]
        if u.val == "cos" and _between(ZERO, v, PI):
            return sub(h, v)
        if u.val == "sin" and _between(neg(h), v, h):
            return v
    return None


def _K(m):
    return mul(const(Fraction(1, 2)), PI) if m is ZERO else None


def _incomplete(name, complete):
    def r(phi, *rest):
        if phi is ZERO:
            return ZERO
        if _free_ints(phi):
            i, rest_ = int_pi(phi, False)
            if i is not None:
                return add(mul(const(2), i, fn(complete, *rest)), fn(name, rest_, *rest))
        q, rem = linear_pi(phi)
        k = q * 2
        if k and k.denominator == 1:
            if rem is ZERO:
                return mul(const(k), fn(complete, *rest))
            n = math.floor(q)
            if n:
                # quasi-periodicity: F(phi + n pi) = F(phi) + 2 n F(pi/2)
                return add(const(0), mul(const(2 * n), fn(complete, *rest)),
                           fn(name, add(rem, mul(const(q - n), PI)), *rest))
        if leading_negative(phi):
            return neg(fn(name, neg(phi), *rest))
        return None
    return r


def _ell_shift(u, m):
    """u == q*K(m) + rest for a syntactic K(m) term -> (q, rest)"""
    Km = fn("K", m)
    terms = u.args if u.op == "add" else (u,)
    q = Fraction(0)
    rest = []
    if Km.op == "fn":
        for t in terms:
            if t is Km:
                q += 1
                continue
            if t.op == "mul" and t.args[0].op == "const" and len(t.args) == 2 and t.args[1] is Km:
                q += t.args[0].val
                continue
            rest.append(t)
    else:
        return linear_pi(u)[0] * 2, linear_pi(u)[1]
    return q, add(*rest) if rest else ZERO


def _ell_period(u, m):
    """u == O*(rest + c*pi) with O = k*K(m)/pi for rational k: the whole multiples of 2 K(m) in k*c*K(m) -> (their number, remaining u)"""
    if u.op != "mul" or m is ZERO:
        return None
    Km = fn("K", m)
    if Km.op != "fn":
        return None
    for s in u.args:
        if s.op != "add":
            continue
        c, rest = linear_pi(s)
        if not c:
            continue
        o = mul(PI, *[t for t in u.args if t is not s])
        k = ONE if o is Km else o.args[0] if o.op == "mul" and len(o.args) == 2 and o.args[0].op == "const" and o.args[1] is Km else None
        if k is None:
            continue
        k = Fraction(k.val)
        n = math.floor(k * c / 2)
        if n:
            return n, mul(*[t for t in u.args if t is not s], add(rest, mul(const(c - 2 * n / k), PI)))
    return None


def _unify(u, m):
    """u with every F(phi, m') and K(m') in it written with m when m' = m is proved from the path's assumptions"""
    ctx = CTX[0]
    if ctx is None or m is ZERO or not hasattr(ctx, "same"):
        return u
    sub, todo, seen = {}, [u], set()
    while todo:
        n = todo.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "fn":
            k = n.args[-1]
            if n.val in ("F", "K") and k is not m and ctx.same(k, m):
                sub[n] = fn(n.val, *n.args[:-1], m)
            continue
        if n.op in ("add", "mul", "pow"):
            todo += n.args
    return substitute([u], sub)[0] if sub else u


def _sn(u, m):
    if u is ZERO:
        return ZERO
    if m is ZERO:
        return fn("sin", u)
    u = _unify(u, m)
    pr = _ell_period(u, m)
    if pr:
        v = fn("sn", pr[1], m)
        return neg(v) if pr[0] % 2 else v
    q, r = _ell_shift(u, m)
    if q and q.denominator == 1:
        k = q.numerator % 4
        if k == 0:
            return fn("sn", r, m)
        if k == 1:
            return div(fn("cn", r, m), fn("dn", r, m))
        if k == 2:
            return neg(fn("sn", r, m))
        return neg(div(fn("cn", r, m), fn("dn", r, m)))
    if u.op == "fn" and u.val == "F" and u.args[1] is m:
        return fn("sin", u.args[0])
    return _odd("sn")(u, m)


def _cn(u, m):
    if u is ZERO:
        return ONE
    if m is ZERO:
        return fn("cos", u)
    u = _unify(u, m)
    pr = _ell_period(u, m)
    if pr:
        v = fn("cn", pr[1], m)
        return neg(v) if pr[0] % 2 else v
    q, r = _ell_shift(u, m)
    if q and q.denominator == 1:
        k = q.numerator % 4
        k1 = sqrt(sub(ONE, m))
        if k == 0:
            return fn("cn", r, m)
        if k == 1:
            return neg(mul(k1, div(fn("sn", r, m), fn("dn", r, m))))
        if k == 2:
            return neg(fn("cn", r, m))
        return mul(k1, div(fn("sn", r, m), fn("dn", r, m)))
    if leading_negative(u):
        return fn("cn", neg(u), m)
    if u.op == "fn" and u.val == "F" and u.args[1] is m:
        return fn("cos", u.args[0])
    return None


def _dn(u, m):
    if u is ZERO or m is ZERO:
        return ONE
    u = _unify(u, m)
    pr = _ell_period(u, m)
    if pr:
        return fn("dn", pr[1], m)
    q, r = _ell_shift(u, m)
    if q and q.denominator == 1:
        if q.numerator % 2 == 0:
            return fn("dn", r, m)
        return div(sqrt(sub(ONE, m)), fn("dn", r, m))
    if leading_negative(u):
        return fn("dn", neg(u), m)
    if u.op == "fn" and u.val == "F" and u.args[1] is m:
        return sqrt(sub(ONE, mul(m, power(fn("sin", u.args[0]), 2))))
    return None


def _am(u, m):
    if u is ZERO:
        return ZERO
    if m is ZERO:
        return u
    u = _unify(u, m)
    pr = _ell_period(u, m)
    if pr:
        # am(u + 2K) = am(u) + pi
        return add(mul(const(pr[0]), PI), fn("am", pr[1], m))
    q, r = _ell_shift(u, m)
    if q:
        if r is ZERO and q.denominator == 1:
            return mul(const(q / 2), PI)
        n = math.floor(q / 2)
        if n:
            return add(mul(const(n), PI), fn("am", add(r, mul(const(q - 2 * n), fn("K", m))), m))
    if u.op == "fn" and u.val == "F" and u.args[1] is m:
        return u.args[0]
    return _odd("am")(u, m)


def _E2(m):
    return mul(const(Fraction(1, 2)), PI) if m is ZERO else None


def _Pi(n, m):
    if m is ZERO and n is not ZERO:
        return mul(const(Fraction(1, 2)), PI, power(sqrt(sub(ONE, n)), -1))
    return fn("K", m) if n is ZERO else None


def _F(phi, m):
    if m is ZERO:
        return phi
    if phi.op == "fn" and phi.val == "am" and phi.args[1] is m:
        return phi.args[0]
    return _incomplete("F", "K")(phi, m)


def _Einc(phi, m):
    if m is ZERO:
        return phi
    return _incomplete("Einc", "E")(phi, m)


def _Piinc(phi, n, m):
    if n is ZERO:
        return fn("F", phi, m)
    return _incomplete("Piinc", "Pi")(phi, n, m)


def _log(x):
    return ZERO if x is ONE else None


def _exp(x):
    return ONE if x is ZERO else None


def _tan(u):
    return div(fn("sin", u), fn("cos", u))


def _arctan2(y, x):
    if y is ZERO and x.op == "const" and x.val > 0:
        return ZERO
    return None


_RULES = dict(sin=_sin, cos=_cos, tan=_tan, arccos=_arccos, arcsin=_arcsin, arctan=_odd("arctan"),
              K=_K, E=_E2, Pi=_Pi, F=_F, Einc=_Einc, Piinc=_Piinc, sn=_sn, cn=_cn, dn=_dn, am=_am,
              log=_log, exp=_exp, arctan2=_arctan2)


# ---------------------------------------------------------------- conditions
# Boolean nodes: ('rel', (x,), op) with op in '<','<=','==' meaning x op 0;
# ('not',(b,)), ('and',(..)), ('or',(..)), ('true'), ('false'), ('bvar', name)
TRUE, FALSE = mk("true"), mk("false")


def rel(x, op):
    if x.op == "const":
        v = x.val
        return TRUE if (v < 0 if op == "<" else v <= 0 if op == "<=" else v == 0) else FALSE
    if op == "==":
        # orient
        if leading_negative(x):
            x = neg(x)
    return mk("rel", (x,), op)


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "rel" and b.val == "<":
        return rel(neg(b.args[0]), "<=")
    if b.op == "rel" and b.val == "<=":
        return rel(neg(b.args[0]), "<")
    return mk("not", (b,))


def band(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is not TRUE:
            out.append(b)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk("and", out)


def bor(*bs):
    return bnot(band(*[bnot(b) for b in bs]))


# ---------------------------------------------------------------- printing / traversal

def show(n, depth=12):
    if n.op == "const":
        return str(n.val)
    if n.op in ("pi", "true", "false"):
        return n.op
    if n.op in ("var", "bvar"):
        return str(n.val)
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) for x in n.args]
    if n.op == "add":
        return "(" + " + ".join(a) + ")"
    if n.op == "mul":
        return "*".join(a)
    if n.op == "pow":
        return f"{a[0]}^{n.val}" if n.args[0].op in ("var", "add", "fn") else f"({a[0]})^{n.val}"
    if n.op == "fn":
        return f"{n.val}({', '.join(a)})"
    if n.op == "rel":
        return f"[{a[0]} {n.val} 0]"
    return f"{n.op}({', '.join(a)})"


def subterms(roots):
    seen = {}
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        stack.extend(n.args)
    return seen


def postorder(roots):
    out, state = [], {}
    stack = [(r, False) for r in reversed(list(roots))]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in state:
            continue
        state[n.id] = 1
        stack.append((n, True))
        for a in n.args:
            if a.id not in state:
                stack.append((a, False))
    return out


def free_vars(roots):
    return {n.val for n in subterms(roots).values() if n.op in ("var", "bvar")}


def rebuild(n, args):
    if n.op == "add":
        return add(*args)
    if n.op == "mul":
        return mul(*args)
    if n.op == "pow":
        return power(args[0], n.val)
    if n.op == "sqrt":
        return sqrt(args[0])
    if n.op == "fn":
        return fn_floor(args[0]) if n.val == "floor" else fn(n.val, *args)
    if n.op == "rel":
        return rel(args[0], n.val)
    if n.op == "not":
        return bnot(args[0])
    if n.op == "and":
        return band(*args)
    return n


def substitute(roots, mapping):
    """mapping: {Node: Node}"""
    m = {k.id: v for k, v in mapping.items()}
    memo = {}
    for n in postorder(roots):
        if n.id in m:
            memo[n.id] = m[n.id]
        elif not n.args:
            memo[n.id] = n
        else:
            args = [memo[a.id] for a in n.args]
            memo[n.id] = n if all(x is y for x, y in zip(args, n.args)) else rebuild(n, args)
    return [memo[r.id] for r in roots]


# ---------------------------------------------------------------- lifting

_lift_cache = {}


def lift_float(x):
    if x in _lift_cache and (x != 0):
        return _lift_cache[x]
    if math.isnan(x):
        raise Unsupported("nan in symbolic arithmetic")
    if math.isinf(x):
        raise Unsupported("inf in symbolic arithmetic")
    r = None
    if abs(x) < 2**53 and x == int(x):
        r = const(int(x))
    if r is None and 1e-4 < abs(x) < 1e4:
        f = Fraction(x).limit_denominator(2000)
        if f != 0 and f.numerator / f.denominator == x:
            r = const(f)
    if r is None and 1e-3 < abs(x) < 1e3:
        for q in (x / math.pi, x * math.pi):
            f = Fraction(q).limit_denominator(400)
            if f != 0 and abs(f.numerator / f.denominator - q) <= 4e-16 * abs(q):
                r = mul(const(f), PI) if q == x / math.pi else mul(const(f), power(PI, -1))
                break
    if r is None:
        r = const(Fraction(repr(float(x))))
    _lift_cache[x] = r
    return r


def lift(x):
    """python/numpy number -> Node (None if not a number)"""
    if isinstance(x, Sym):
        return x.n
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return const(int(x))
    if isinstance(x, int) or isinstance(x, np.integer):
        return const(int(x))
    if isinstance(x, (float, np.floating)):
        return lift_float(float(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, Node):
        return x
    if isinstance(x, SymBool):
        return const(1) if bool(x) else const(0)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


# the running path explorer (set by explore.py)
CTX = [None]


def decide(b):
    """truth value of boolean node b on the current path"""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    ctx = CTX[0]
    if ctx is None:
        raise Unsupported("branch on a symbolic condition outside a path exploration")
    return ctx.decide(b)


class SymBool:
    __slots__ = ("n", "arr")
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, n, arr=False):
        self.n = n
        self.arr = arr

    def __bool__(self):
        if self.arr:
            raise ValueError("The truth value of an array with more than one element is ambiguous. "
                             "Use a.any() or a.all()")
        return decide(self.n)

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.n
        if isinstance(o, (bool, np.bool_)):
            return TRUE if o else FALSE
        raise Unsupported("boolean operation")

    def __and__(self, o):
        return SymBool(band(self.n, self._o(o)), self.arr or getattr(o, "arr", False))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(bor(self.n, self._o(o)), self.arr or getattr(o, "arr", False))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(bnot(self.n), self.arr)

    def __eq__(self, o):
        o = self._o(o)
        if o is TRUE:
            return self
        if o is FALSE:
            return SymBool(bnot(self.n), self.arr)
        return SymBool(bor(band(self.n, o), band(bnot(self.n), bnot(o))), self.arr)

    def _num(self):
        return Sym(ONE if decide(self.n) else ZERO)

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def all(self, *a, **k):
        return self if self.arr else self

    any = all

    def item(self):
        return self

    def astype(self, *a, **k):
        return self._num()

    def __int__(self):
        return int(decide(self.n))

    __index__ = __int__

    def __float__(self):
        return float(decide(self.n))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return function_dispatch(func, args, kw)

    def __repr__(self):
        return f"SymBool({show(self.n)})"


def _wrap_like(n, *ops):
    for o in ops:
        if isinstance(o, SymArr):
            return SymArr(n)
    return Sym(n)


def _cmp(op):
    def f(self, o):
        if isinstance(o, SymC):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            big = o > 0
            return SymBool(TRUE if {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[op]
                           else FALSE)
        if isinstance(o, (float, np.floating)) and math.isnan(o):
            return SymBool(TRUE if op == "!=" else FALSE)
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        y = lift(o)
        if y is None:
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        arr = isinstance(self, SymArr) or isinstance(o, SymArr)
        d = sub(self.n, y)
        if op == "<":
            return SymBool(rel(d, "<"), arr)
        if op == "<=":
            return SymBool(rel(d, "<="), arr)
        if op == ">":
            return SymBool(rel(neg(d), "<"), arr)
        if op == ">=":
            return SymBool(rel(neg(d), "<="), arr)
        if op == "==":
            return SymBool(rel(d, "=="), arr)
        return SymBool(bnot(rel(d, "==")), arr)
    return f


def _bin(f, rev=False):
    def g(self, o):
        if isinstance(o, (SymC,)):
            return NotImplemented
        if isinstance(o, complex):
            s = SymC(self.n, ZERO)
            return NotImplemented if False else _cbin(f, rev, s, SymC.of(o))
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isinstance(o, (float, np.floating)) and (math.isnan(o) or math.isinf(o)):
            if math.isnan(o):
                return float("nan")
            raise Unsupported("inf in symbolic arithmetic")
        y = lift(o)
        if y is None:
            return NotImplemented
        a, b = (y, self.n) if rev else (self.n, y)
        return _wrap_like(f(a, b), self, o)
    return g


def _cbin(f, rev, s, o):
    a, b = (o, s) if rev else (s, o)
    if f is add:
        return a + b
    if f is sub:
        return a - b
    if f is mul:
        return a * b
    if f is div:
        return a / b
    raise Unsupported("complex arithmetic")


def _pow_node(b, e):
    if e.op != "const":
        if b.op == "const" and b.val > 0 and e.op != "const":
            return fn("exp", mul(e, fn("log", b)))
        raise Unsupported("symbolic exponent")
    q = e.val
    if q.denominator == 1:
        return power(b, q.numerator)
    if q.denominator == 2:
        return power(sqrt(b), q.numerator)
    raise Unsupported("fractional exponent")


def floordiv(a, b):
    return fn_floor(div(a, b))


def fn_floor(x):
    if x.op == "const":
        return const(math.floor(x.val))
    # integer-valued parts come out
    if x.op == "mul":
        sums = [t for t in x.args if t.op == "add"]
        if len(sums) == 1:
            o = [t for t in x.args if t is not sums[0]]
            x = add(*[mul(*o, t) for t in sums[0].args])
    terms = x.args if x.op == "add" else (x,)
    ints, rest = [], []
    for t in terms:
        (ints if is_integer_node(t) else rest).append(t)
    if ints:
        r = add(*rest) if rest else ZERO
        return add(*ints, fn_floor(r))
    ctx = CTX[0]
    if ctx is not None:
        v = ctx.floor_of(x)
        if v is not None:
            return const(v)
    return mk("fn", (x,), "floor")


def is_integer_node(t):
    if t.op == "const":
        return t.val.denominator == 1
    if t.op == "fn" and t.val == "floor":
        return True
    if t.op == "var":
        return isinstance(t.val, str) and t.val.startswith("int_")
    if t.op in ("mul", "add"):
        return all(is_integer_node(a) for a in t.args)
    if t.op == "pow":
        return t.val > 0 and is_integer_node(t.args[0])
    return False


def mod(a, b):
    """python a % b for b a positive constant"""
    if b.op == "const" and a.op == "const":
        return const(a.val % b.val)
    if b.op == "const" and b.val > 0:
        terms = a.args if a.op == "add" else (a,)
        keep = []
        for t in terms:
            c = None
            if t.op == "const":
                c = t.val % b.val
                if c:
                    keep.append(const(c))
                continue
            if t.op == "mul" and t.args[0].op == "const" and (t.args[0].val / b.val).denominator == 1 \
                    and is_integer_node(mul(*t.args[1:])):
                continue
            keep.append(t)
        r = add(*keep) if keep else ZERO
        if r.op == "const":
            return const(r.val % b.val)
        a = r
    # a - b*floor(a/b)
    return sub(a, mul(b, fn_floor(div(a, b))))


class Sym:
    __slots__ = ("n",)
    __array_priority__ = 1000

    def __init__(self, n):
        self.n = n

    __add__ = _bin(add)
    __radd__ = _bin(add, True)
    __sub__ = _bin(sub)
    __rsub__ = _bin(sub, True)
    __mul__ = _bin(mul)
    __rmul__ = _bin(mul, True)
    __truediv__ = _bin(div)
    __rtruediv__ = _bin(div, True)
    __pow__ = _bin(_pow_node)
    __rpow__ = _bin(_pow_node, True)
    __floordiv__ = _bin(floordiv)
    __rfloordiv__ = _bin(floordiv, True)
    __mod__ = _bin(mod)
    __rmod__ = _bin(mod, True)
    __lt__ = _cmp("<")
    __le__ = _cmp("<=")
    __gt__ = _cmp(">")
    __ge__ = _cmp(">=")
    __eq__ = _cmp("==")
    __ne__ = _cmp("!=")

    def __hash__(self):
        # equal hashes make sets and dictionaries compare terms, which splits cases as == does
        return 0

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return _wrap_like(neg(self.n), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return _wrap_like(sym_abs(self.n), self)

    def __bool__(self):
        return not decide(rel(self.n, "=="))

    def __float__(self):
        if self.n.op == "const":
            return float(self.n.val)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.n.op == "const":
            return int(self.n.val)
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.n.op == "const" and self.n.val.denominator == 1:
            return int(self.n.val)
        raise Unsupported("index from a symbolic value")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __round__(self, *a):
        if self.n.op == "const":
            return round(self.n.val, *a)
        raise Unsupported("round() of a symbolic value")

    def __floor__(self):
        return Sym(fn_floor(self.n))

    def __ceil__(self):
        return Sym(neg(fn_floor(neg(self.n))))

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return f"Sym({show(self.n)})"

    def item(self):
        return self

    def sqrt(self):
        return _wrap_like(sqrt(self.n), self)

    def conjugate(self):
        return self

    conj = conjugate

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym(ZERO)

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def is_integer(self):
        if self.n.op == "const":
            return self.n.val.denominator == 1
        raise Unsupported("is_integer")

    def astype(self, t, *a, **k):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return function_dispatch(func, args, kw)


for _f in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "exp", "log"):
    def _m(self, _f=_f):
        return _wrap_like(fn(_f, self.n), self)
    setattr(Sym, _f, _m)

numbers.Number.register(Sym)


class SymArr(Sym):
    """one generic element of a numpy array (element-wise semantics)"""
    __slots__ = ()
    __hash__ = Sym.__hash__

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __float__(self):
        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")

    __int__ = __index__ = __float__

    def item(self):
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    @property
    def ndim(self):
        return 1

    @property
    def shape(self):
        raise Unsupported("shape of a generic array")

    @property
    def size(self):
        raise Unsupported("size of a generic array")

    def __len__(self):
        raise Unsupported("len of a generic array")

    def __iter__(self):
        raise Unsupported("iteration over a generic array")

    def __getitem__(self, i):
        raise Unsupported("indexing a generic array")

    def __array_function__(self, func, types, args, kw):
        return function_dispatch(func, args, kw)


def _scalar_isinstance_fix():
    pass


class SymC:
    """complex number with symbolic parts"""
    __slots__ = ("re", "im")
    __array_priority__ = 1001
    __hash__ = object.__hash__

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(o):
        if isinstance(o, SymC):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return SymC(lift_float(o.real), lift_float(o.imag))
        n = lift(o)
        if n is None:
            raise Unsupported("complex operand")
        return SymC(n, ZERO)

    @property
    def real(self):
        return Sym(self.re)

    @property
    def imag(self):
        return Sym(self.im)

    def item(self):
        return self

    def conjugate(self):
        return SymC(self.re, neg(self.im))

    conj = conjugate

    def __add__(self, o):
        o = SymC.of(o)
        return SymC(add(self.re, o.re), add(self.im, o.im))

    __radd__ = __add__

    def __neg__(self):
        return SymC(neg(self.re), neg(self.im))

    def __sub__(self, o):
        return self + (-SymC.of(o))

    def __rsub__(self, o):
        return SymC.of(o) - self

    def __mul__(self, o):
        o = SymC.of(o)
        return SymC(sub(mul(self.re, o.re), mul(self.im, o.im)), add(mul(self.re, o.im), mul(self.im, o.re)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymC.of(o)
        d = add(power(o.re, 2), power(o.im, 2))
        n = self * o.conjugate()
        return SymC(div(n.re, d), div(n.im, d))

    def __rtruediv__(self, o):
        return SymC.of(o) / self

    def __pow__(self, k):
        if isinstance(k, (int, float)) and int(k) == k and k >= 0:
            r = SymC(ONE, ZERO)
            for _ in range(int(k)):
                r = r * self
            return r
        raise Unsupported("complex power")

    def __abs__(self):
        return Sym(sqrt(add(power(self.re, 2), power(self.im, 2))))

    def __eq__(self, o):
        o = SymC.of(o)
        return SymBool(band(rel(sub(self.re, o.re), "=="), rel(sub(self.im, o.im), "==")))

    def __ne__(self, o):
        return ~(self == o)

    def _ord(self, o, lt, strict):
        # numpy orders complex numbers lexicographically
        o = SymC.of(o)
        a, b = (self, o) if lt else (o, self)
        d = sub(a.re, b.re)
        im = rel(sub(a.im, b.im), "<" if strict else "<=")
        return SymBool(bor(rel(d, "<"), band(rel(d, "=="), im)))

    def __lt__(self, o):
        return self._ord(o, True, True)

    def __gt__(self, o):
        return self._ord(o, False, True)

    def __le__(self, o):
        return self._ord(o, True, False)

    def __ge__(self, o):
        return self._ord(o, False, False)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return function_dispatch(func, args, kw)

    def __repr__(self):
        return f"SymC({show(self.re)}, {show(self.im)})"


# ---------------------------------------------------------------- forking helpers

def sym_abs(n):
    if n.op == "const":
        return const(abs(n.val))
    if decide(rel(neg(n), "<=")):
        return n
    return neg(n)


def sym_sign(n):
    if decide(rel(n, "==")):
        return ZERO
    return ONE if decide(rel(neg(n), "<")) else MINUS1


def as_sym(x):
    n = lift(x)
    if n is None:
        raise Unsupported(f"cannot lift {type(x).__name__}")
    return n


# ---------------------------------------------------------------- numpy / scipy dispatch

def _u1(name):
    def f(x):
        return _wrap_like(fn(name, as_sym(x)), x)
    return f


def _ellipj(u, m):
    un, mn = as_sym(u), as_sym(m)
    return tuple(_wrap_like(fn(k, un, mn), u, m) for k in ("sn", "cn", "dn", "am"))


def _wn(name):
    def f(*xs):
        return _wrap_like(fn(name, *[as_sym(x) for x in xs]), *xs)
    return f


def _legendre(name, ns):
    """library contract: Carlson's integrals with one unit argument are Legendre's (DLMF 19.25.5, 19.25.9, 19.25.14)"""
    k = {"RF": 3, "RD": 3, "RJ": 3}.get(name)
    if k is None:
        return None
    if name == "RD":
        if ns[2] is not ONE:
            return None
        x, y = ns[0], ns[1]
    else:
        xyz = list(ns[:3])
        if ONE not in xyz:
            return None
        xyz.remove(ONE)
        x, y = xyz
    if y is ZERO:
        x, y = y, x
    if y.op == "const" and x.op != "const":
        x, y = y, x
    if x is ONE:
        return None
    full = x is ZERO
    s = phi = None
    if x.op == "pow" and x.val == 2 and x.args[0].op == "fn" and x.args[0].val in ("sin", "cos"):
        v = x.args[0].args[0]
        h = mul(const(Fraction(1, 2)), PI)
        if _between(ZERO, v, h):
            if x.args[0].val == "cos":
                s, phi = fn("sin", v), v
            else:
                s, phi = fn("cos", v), sub(h, v)
    s2 = sub(ONE, x)
    if s is None:
        s = sqrt(s2)
        phi = None if full else fn("arcsin", s)
    else:
        s2 = power(s, 2)
    m = div(sub(ONE, y), s2)
    F = fn("K", m) if full else fn("F", phi, m)
    if name == "RF":
        return div(F, s)
    if name == "RD":
        if m is ZERO:
            return None
        Ei = fn("E", m) if full else fn("Einc", phi, m)
        return div(mul(const(3), sub(F, Ei)), mul(m, power(s, 3)))
    n = div(sub(ONE, ns[3]), s2)
    if n is ZERO:
        return None
    P = fn("Pi", n, m) if full else fn("Piinc", phi, n, m)
    return div(mul(const(3), sub(P, F)), mul(n, power(s, 3)))


def _carlson(name):
    def f(*xs):
        ns = [as_sym(x) for x in xs]
        r = _legendre(name, ns)
        if r is not None:
            return _wrap_like(r, *xs)
        if name == "RF":
            ns.sort(key=lambda n: n.id)
        else:
            k = 2 if name == "RD" else 3
            ns = sorted(ns[:k], key=lambda n: n.id) + ns[k:]
        return _wrap_like(mk("fn", ns, name), *xs)
    return f


def _sign(x):
    if isinstance(x, SymC):
        raise Unsupported("sign of complex")
    return _wrap_like(sym_sign(as_sym(x)), x)


def _copysign(x, y):
    xn = as_sym(x)
    m = sym_abs(xn)
    yn = as_sym(y)
    # negative zero is outside the real-number semantics
    return _wrap_like(m if decide(rel(neg(yn), "<=")) else neg(m), x, y)


def _max(x, y):
    return x if decide(rel(sub(as_sym(y), as_sym(x)), "<=")) else y


def _min(x, y):
    return x if decide(rel(sub(as_sym(x), as_sym(y)), "<=")) else y


def _floor(x):
    return _wrap_like(fn_floor(as_sym(x)), x)


def _round(x, decimals=0, out=None):
    raise Unsupported("rounding of a symbolic value")


def _isfinite(x):
    return True


def _false(x):
    return False


def _deg2rad(x):
    return x * Sym(mul(PI, const(Fraction(1, 180))))


def _rad2deg(x):
    return x * Sym(mul(power(PI, -1), const(180)))


def _logical(op):
    def f(*xs):
        bs = []
        for x in xs:
            if isinstance(x, SymBool):
                bs.append(x.n)
            elif isinstance(x, (bool, np.bool_)):
                bs.append(TRUE if x else FALSE)
            else:
                bs.append(bnot(rel(as_sym(x), "==")))
        arr = any(getattr(x, "arr", False) or isinstance(x, SymArr) for x in xs)
        return SymBool(op(*bs), arr)
    return f


def _op2(f):
    def g(x, y):
        if isinstance(x, SymC) or isinstance(y, SymC):
            return {add: lambda: SymC.of(x) + y, sub: lambda: SymC.of(x) - y, mul: lambda: SymC.of(x) * y,
                    div: lambda: SymC.of(x) / y}[f]()
        return _wrap_like(f(as_sym(x), as_sym(y)), x, y)
    return g


def _cmp2(op):
    def g(x, y):
        if isinstance(x, SymC) or isinstance(y, SymC):
            if op == "==":
                return SymC.of(x) == y
            if op == "!=":
                return SymC.of(x) != y
            raise Unsupported("ordering complex")
        if not isinstance(x, Sym):
            if isinstance(x, SymBool):
                x = x._num()
            else:
                flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
                return _cmp(flip)(y, x)
        return _cmp(op)(x, y)
    return g


def _square(x):
    return x * x


def _sqrt(x):
    if isinstance(x, SymC):
        raise Unsupported("complex sqrt")
    return _wrap_like(sqrt(as_sym(x)), x)


def _hypot(x, y):
    return _wrap_like(sqrt(add(power(as_sym(x), 2), power(as_sym(y), 2))), x, y)


def _conj(x):
    return x.conjugate()


def _abs(x):
    return abs(x)


UFUNCS = {
    np.add: _op2(add), np.subtract: _op2(sub), np.multiply: _op2(mul), np.true_divide: _op2(div),
    np.power: lambda x, y: (x**y if isinstance(x, (Sym, SymC)) else Sym(as_sym(x)) ** y),
    np.float_power: lambda x, y: (x**y if isinstance(x, (Sym, SymC)) else Sym(as_sym(x)) ** y),
    np.floor_divide: _op2(floordiv), np.remainder: _op2(mod),
    np.divmod: lambda x, y: (_op2(floordiv)(x, y), _op2(mod)(x, y)),
    np.negative: lambda x: -x, np.positive: lambda x: x, np.absolute: _abs, np.fabs: _abs,
    np.sqrt: _sqrt, np.square: _square, np.reciprocal: lambda x: 1 / x,
    np.sin: _u1("sin"), np.cos: _u1("cos"), np.tan: _u1("tan"), np.arcsin: _u1("arcsin"), np.arccos: _u1("arccos"),
    np.arctan: _u1("arctan"), np.arctan2: _wn("arctan2"), np.log: _u1("log"), np.exp: _u1("exp"),
    np.hypot: _hypot, np.sign: _sign, np.copysign: _copysign, np.maximum: _max, np.minimum: _min,
    np.fmax: _max, np.fmin: _min, np.floor: _floor,
    np.ceil: lambda x: -_floor(-x), np.isfinite: _isfinite, np.isnan: _false, np.isinf: _false,
    np.signbit: lambda x: SymBool(rel(as_sym(x), "<"), isinstance(x, SymArr)),
    np.deg2rad: _deg2rad, np.radians: _deg2rad, np.rad2deg: _rad2deg, np.degrees: _rad2deg,
    np.less: _cmp2("<"), np.less_equal: _cmp2("<="), np.greater: _cmp2(">"), np.greater_equal: _cmp2(">="),
    np.equal: _cmp2("=="), np.not_equal: _cmp2("!="),
    np.logical_and: _logical(band), np.logical_or: _logical(bor), np.logical_not: _logical(bnot),
    np.bitwise_and: _logical(band), np.bitwise_or: _logical(bor), np.invert: _logical(bnot),
    np.conjugate: _conj,
    np.heaviside: lambda x, h: Sym(ZERO if decide(rel(as_sym(x), "<")) else
                                   (as_sym(h) if decide(rel(as_sym(x), "==")) else ONE)),
}


def _install_scipy():
    import scipy.special as sp
    UFUNCS.update({
        sp.ellipk: _wn("K"), sp.ellipe: _wn("E"), sp.ellipj: _ellipj, sp.ellipkinc: _wn("F"),
        sp.ellipeinc: _wn("Einc"), sp.elliprf: _carlson("RF"), sp.elliprd: _carlson("RD"),
        sp.elliprj: _carlson("RJ"), sp.elliprc: _carlson("RC"),
        sp.ellipkm1: lambda p: _wrap_like(fn("K", sub(ONE, as_sym(p))), p),
    })


_install_scipy()


def ufunc_dispatch(ufunc, method, inputs, kw):
    if method == "reduce" and ufunc in (np.add, np.multiply, np.maximum, np.minimum):
        raise Unsupported("reduction")
    if method != "__call__":
        raise Unsupported(f"ufunc method {method}")
    if any(isinstance(x, np.ndarray) and x.ndim > 0 for x in inputs):
        # element-wise over an explicit array
        arrs = np.broadcast_arrays(*[x if isinstance(x, np.ndarray) else _obj0(x) for x in inputs])
        out = np.empty(arrs[0].shape, dtype=object)
        f = UFUNCS.get(ufunc)
        if f is None:
            raise Unsupported(f"ufunc {ufunc.__name__}")
        for i in np.ndindex(out.shape):
            out[i] = f(*[a[i] for a in arrs])
        return out
    kw = {k: v for k, v in kw.items() if k not in ("dtype", "casting", "order", "subok")}
    if kw:
        raise Unsupported(f"ufunc keyword {list(kw)}")
    f = UFUNCS.get(ufunc)
    if f is None:
        raise Unsupported(f"ufunc {ufunc.__name__}")
    return f(*inputs)


def _obj0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _iscomplex(x):
    if isinstance(x, SymC):
        return SymBool(bnot(rel(x.im, "==")))
    if isinstance(x, Sym):
        return False
    if isinstance(x, (list, tuple, SymSeq)) or (isinstance(x, np.ndarray) and x.dtype == object):
        return SymSeq([_iscomplex(v) for v in x])
    return np.iscomplex(x)


def _isreal(x):
    r = _iscomplex(x)
    if isinstance(r, SymSeq):
        return SymSeq([(~v if isinstance(v, SymBool) else not v) for v in r])
    return ~r if isinstance(r, SymBool) else np.logical_not(r)


def _real(x):
    if isinstance(x, (SymC, Sym)):
        return x.real
    if isinstance(x, (list, tuple, SymSeq)) or (isinstance(x, np.ndarray) and x.dtype == object):
        return SymSeq([_real(v) for v in x])
    return np.real(x)


def _imag(x):
    if isinstance(x, (SymC, Sym)):
        return x.imag
    if isinstance(x, (list, tuple, SymSeq)) or (isinstance(x, np.ndarray) and x.dtype == object):
        return SymSeq([_imag(v) for v in x])
    return np.imag(x)


def _sort(x, **kw):
    if isinstance(x, (list, tuple, SymSeq)) or (isinstance(x, np.ndarray) and x.dtype == object):
        out = []
        for v in x:
            i = 0
            while i < len(out) and not bool(v < out[i]):
                i += 1
            out.insert(i, v)
        return SymSeq(out)
    return np.sort(x, **kw)


def _where(c, x=None, y=None):
    if isinstance(c, SymBool):
        return x if decide(c.n) else y
    if isinstance(c, (bool, np.bool_)):
        return x if c else y
    raise Unsupported("where")


def _has_sym(x):
    if isinstance(x, (Sym, SymC, SymBool, SymSeq)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    if isinstance(x, np.ndarray):
        return x.dtype == object
    return False


def _solve(A, b):
    A = np.array(A, dtype=object)
    b = np.array(b, dtype=object)
    n = A.shape[0]
    if A.shape != (n, n) or b.shape != (n,) or n > 3:
        raise Unsupported("linalg.solve shape")
    d = _det(A)
    out = np.empty(n, dtype=object)
    for i in range(n):
        M = A.copy()
        M[:, i] = b
        out[i] = _det(M) / d
    return out


def _det(A):
    A = np.array(A, dtype=object)
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    s = 0
    for j in range(n):
        M = np.delete(np.delete(A, 0, 0), j, 1)
        s = s + (-1) ** j * A[0, j] * _det(M)
    return s


def _inv(A):
    A = np.array(A, dtype=object)
    n = A.shape[0]
    d = _det(A)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            M = np.delete(np.delete(A, j, 0), i, 1)
            out[i, j] = (-1) ** (i + j) * (_det(M) if n > 1 else 1) / d
    return out


def _norm(x, ord=None, axis=None, keepdims=False):
    a = np.array(x, dtype=object)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    sq = (a * a).sum(axis=axis)
    if isinstance(sq, np.ndarray):
        out = np.empty(sq.shape, dtype=object)
        for i in np.ndindex(sq.shape):
            out[i] = _sqrt(sq[i]) if isinstance(sq[i], Sym) else math.sqrt(sq[i])
        return out
    return _sqrt(sq) if isinstance(sq, Sym) else math.sqrt(sq)


def _allclose(*a, **k):
    raise Unsupported("allclose")


def _maxn(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    r = a[0]
    for v in a[1:]:
        r = _max(r, v)
    return r


def _minn(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    r = a[0]
    for v in a[1:]:
        r = _min(r, v)
    return r


def _clip(x, lo=None, hi=None, **k):
    ctx = CTX[0]
    if isinstance(x, Sym) and hasattr(ctx, "same"):
        for v in (lo, hi):
            if v is not None and not isinstance(v, (Sym, np.ndarray)) and ctx.same(x.n, lift(v)):
                return v
    if lo is not None:
        x = _max(x, lo)
    if hi is not None:
        x = _min(x, hi)
    return x


def _polyval(p, x):
    r = 0
    for c in p:
        r = r * x + c
    return r


def _array(x, dtype=None, *a, **k):
    if isinstance(x, SymArr):
        return x
    if isinstance(x, (Sym, SymC)):
        return x
    if isinstance(x, SymSeq):
        return SymSeq(x)
    if _has_sym(x):
        return np.array([list(v) if isinstance(v, SymSeq) else v for v in x], dtype=object)
    return np.array(x, dtype=dtype, *a, **k)


def _asarray(x, *a, **k):
    return _array(x, *a, **k)


def _count_nonzero(x, *a, **k):
    return x.sum() if isinstance(x, SymSeq) else sum(1 for v in x if bool(v))


def _sum(x, *a, **k):
    if isinstance(x, SymSeq):
        return x.sum()
    return np.sum(x, *a, **k)


def _any(x, *a, **k):
    if isinstance(x, SymBool):
        return x
    return any(bool(v) for v in x)


def _all(x, *a, **k):
    if isinstance(x, SymBool):
        return x
    return all(bool(v) for v in x)


def _atleast(x):
    return x


def _isscalar(x):
    if isinstance(x, SymArr):
        return False
    if isinstance(x, (Sym, SymC)):
        return True
    return np.isscalar(x)


def _ndim(x):
    if isinstance(x, SymArr):
        return 1
    if isinstance(x, (Sym, SymC, SymBool)):
        return 0
    return np.ndim(x)


def _zeros_like(x, *a, **k):
    if isinstance(x, SymArr):
        return SymArr(ZERO)
    return Sym(ZERO)


def _full_like(x, v, *a, **k):
    return SymArr(as_sym(v)) if isinstance(x, SymArr) else v


# functions handled by name of the numpy function they replace
FUNCTIONS = {}


def _reg():
    import numpy.linalg as la
    F = FUNCTIONS
    F[np.iscomplex] = _iscomplex
    F[np.isreal] = _isreal
    F[np.real] = _real
    F[np.imag] = _imag
    F[np.sort] = _sort
    F[np.where] = _where
    F[la.solve] = _solve
    F[la.det] = _det
    F[la.inv] = _inv
    F[la.norm] = _norm
    F[np.max] = F[np.amax] = _maxn
    F[np.min] = F[np.amin] = _minn
    F[np.clip] = _clip
    F[np.polyval] = _polyval
    F[np.array] = _array
    F[np.asarray] = _asarray
    F[np.count_nonzero] = _count_nonzero
    F[np.sum] = _sum
    F[np.any] = _any
    F[np.all] = _all
    F[np.isscalar] = _isscalar
    F[np.ndim] = _ndim
    F[np.zeros_like] = _zeros_like
    F[np.ones_like] = lambda x, *a, **k: SymArr(ONE) if isinstance(x, SymArr) else Sym(ONE)
    F[np.full_like] = _full_like
    F[np.squeeze] = lambda x, *a, **k: x
    F[np.isclose] = _allclose
    F[np.allclose] = _allclose
    F[np.angle] = None
    F[np.ravel] = lambda x, *a, **k: x


_reg()


def _contains(x):
    if isinstance(x, (Sym, SymC, SymBool, SymSeq)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_contains(v) for v in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(_contains(v) for v in x.ravel())
    return False


def _objectify(x):
    if isinstance(x, (list, tuple)) and _contains(x):
        return np.array([_objectify(v) for v in x], dtype=object)
    return x


# numpy functions that work element-wise or structurally on object arrays
_STRUCTURAL = {"dot", "matmul", "inner", "outer", "einsum", "transpose", "diag", "stack", "column_stack", "concatenate",
               "broadcast_to", "tensordot", "cross", "trace", "vdot", "vstack", "hstack", "flip", "tile", "repeat",
               "reshape", "swapaxes", "moveaxis", "expand_dims", "prod", "cumsum", "size", "shape", "triu", "tril",
               "diagonal", "kron", "append", "atleast_1d", "atleast_2d", "copy", "block", "argsort", "split"}


def _make_constructor(func):
    def g(*a, **k):
        if "dtype" in k or len(a) > 1:
            return func(*a, **k)
        return func(*a, dtype=object, **k)
    g.__name__ = func.__name__
    return g


def override(func):
    """version of a numpy function that also accepts symbolic values"""
    impl = FUNCTIONS.get(func)
    if func in (np.zeros, np.ones, np.empty, np.identity, np.eye):
        return _make_constructor(func)
    if impl is None and func.__name__ in _STRUCTURAL:
        def impl(*a, **k):
            return func(*[_objectify(x) for x in a], **k)

    def g(*a, **k):
        if any(_contains(x) for x in a) or any(_contains(x) for x in k.values()):
            if impl is None:
                raise Unsupported(f"function {func.__name__}")
            return impl(*a, **k)
        return func(*a, **k)
    g.__name__ = getattr(func, "__name__", "fn")
    return g


def function_dispatch(func, args, kw):
    impl = FUNCTIONS.get(func)
    if impl is None and func.__name__ in _STRUCTURAL:
        raise Unsupported(f"numpy function {func.__name__} on a symbolic scalar")
    if impl is None:
        raise Unsupported(f"numpy function {func.__name__}")
    return impl(*args, **kw)


class SymSeq(list):
    """a short explicit 1-d array of symbolic scalars (result of Polynomial.roots, np.sort, ...)"""
    __hash__ = None

    def __getitem__(self, i):
        if isinstance(i, (SymSeq, list)) and len(i) == len(self) and all(
                isinstance(v, (bool, np.bool_, SymBool)) for v in i):
            return SymSeq([v for v, k in zip(self, i) if bool(k)])
        if isinstance(i, np.ndarray):
            return self[list(i)] if i.dtype in (bool, object) else SymSeq([list.__getitem__(self, int(j)) for j in i])
        if isinstance(i, (list, SymSeq)):
            return SymSeq([list.__getitem__(self, int(j)) for j in i])
        r = list.__getitem__(self, i)
        return SymSeq(r) if isinstance(i, slice) else r

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return (len(self),)

    @property
    def ndim(self):
        return 1

    @property
    def real(self):
        return _real(self)

    @property
    def imag(self):
        return _imag(self)

    def sum(self, *a, **k):
        s = 0
        for v in self:
            s = s + (int(bool(v)) if isinstance(v, (SymBool, bool, np.bool_)) else v)
        return s

    def any(self):
        return any(bool(v) for v in self)

    def all(self):
        return all(bool(v) for v in self)

    def tolist(self):
        return list(self)

    def copy(self):
        return SymSeq(self)

    def max(self):
        return _maxn(self)

    def min(self):
        return _minn(self)

    def _map(self, f, o):
        if isinstance(o, (list, tuple, np.ndarray)):
            return SymSeq([f(a, b) for a, b in zip(self, o)])
        return SymSeq([f(a, o) for a in self])

    def __add__(self, o):
        return self._map(lambda a, b: a + b, o)

    def __radd__(self, o):
        return self._map(lambda a, b: b + a, o)

    def __sub__(self, o):
        return self._map(lambda a, b: a - b, o)

    def __rsub__(self, o):
        return self._map(lambda a, b: b - a, o)

    def __mul__(self, o):
        return self._map(lambda a, b: a * b, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._map(lambda a, b: a / b, o)

    def __lt__(self, o):
        return self._map(lambda a, b: a < b, o)

    def __gt__(self, o):
        return self._map(lambda a, b: a > b, o)

    def __le__(self, o):
        return self._map(lambda a, b: a <= b, o)

    def __ge__(self, o):
        return self._map(lambda a, b: a >= b, o)

    def __eq__(self, o):
        return self._map(lambda a, b: a == b, o)

    def __ne__(self, o):
        return self._map(lambda a, b: a != b, o)

    def __abs__(self):
        return SymSeq([abs(v) for v in self])

    def __invert__(self):
        return SymSeq([(~v if isinstance(v, SymBool) else not v) for v in self])

    def __and__(self, o):
        return self._map(lambda a, b: a & b, o)

    def __or__(self, o):
        return self._map(lambda a, b: a | b, o)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__":
            raise Unsupported("ufunc method on roots")
        n = len(self)
        out = []
        for i in range(n):
            xs = [x[i] if isinstance(x, (SymSeq,)) or (isinstance(x, np.ndarray) and x.ndim == 1) else x for x in inputs]
            if any(isinstance(x, (Sym, SymC, SymBool)) for x in xs):
                out.append(ufunc_dispatch(ufunc, method, xs, kw))
            else:
                out.append(ufunc(*xs))
        return SymSeq(out)

    def __array_function__(self, func, types, args, kw):
        return function_dispatch(func, args, kw)


def _lift_sym(x):
    return x if isinstance(x, Sym) else Sym(as_sym(x))
