"""Symbolic differentiation of terms."""
from fractions import Fraction
from . import terms as T

c = T.const


def derivative(root, v):
    """d root / d v  (v a var Node)"""
    d = {}
    for n in T.postorder([root]):
        d[n.id] = _one(n, d, v)
    return d[root.id]


def _one(n, d, v):
    if n is v:
        return T.ONE
    op = n.op
    if op in ("const", "var", "pi"):
        return T.ZERO
    da = [d[a.id] for a in n.args]
    if all(x is T.ZERO for x in da):
        return T.ZERO
    if op == "add":
        return T.add(*da)
    if op == "mul":
        out = []
        for i, x in enumerate(da):
            if x is not T.ZERO:
                out.append(T.mul(*n.args[:i], x, *n.args[i + 1:]))
        return T.add(*out)
    if op == "pow":
        return T.mul(c(n.val), T.power(n.args[0], n.val - 1), da[0])
    if op == "sqrt":
        return T.mul(c(Fraction(1, 2)), da[0], T.power(n, -1))
    if op == "fn":
        return _fn(n, da)
    raise T.Unsupported("derivative of " + op)


def _fn(n, da):
    name, a = n.val, n.args
    u, du = a[0], da[0]
    if name in ("sn", "cn", "dn", "am", "F", "Einc", "Piinc"):
        if any(x is not T.ZERO for x in da[1:]):
            raise T.Unsupported("derivative with respect to a modulus")
    if name == "sin":
        return T.mul(T.fn("cos", u), du)
    if name == "cos":
        return T.neg(T.mul(T.fn("sin", u), du))
    if name == "sn":
        return T.mul(T.fn("cn", *a), T.fn("dn", *a), du)
    if name == "cn":
        return T.neg(T.mul(T.fn("sn", *a), T.fn("dn", *a), du))
    if name == "dn":
        return T.neg(T.mul(a[1], T.fn("sn", *a), T.fn("cn", *a), du))
    if name == "am":
        return T.mul(T.fn("dn", *a), du)
    if name in ("Einc", "F", "Piinc"):
        m = a[-1]
        s = T.fn("sin", u)
        if u.op == "fn" and u.val == "am" and u.args[1] is m:
            delta = T.fn("dn", *u.args)
        else:
            delta = T.sqrt(T.sub(T.ONE, T.mul(m, T.power(s, 2))))
        if name == "Einc":
            return T.mul(delta, du)
        if name == "F":
            return T.mul(T.power(delta, -1), du)
        return T.mul(du, T.power(T.mul(T.sub(T.ONE, T.mul(a[1], T.power(s, 2))), delta), -1))
    if name == "log":
        return T.div(du, u)
    if name == "exp":
        return T.mul(n, du)
    if name == "arctan":
        return T.div(du, T.add(T.ONE, T.power(u, 2)))
    if name == "arctan2":
        y, x = a
        return T.div(T.sub(T.mul(x, da[0]), T.mul(y, da[1])), T.add(T.power(x, 2), T.power(y, 2)))
    if name == "arccos":
        return T.neg(T.div(du, T.sqrt(T.sub(T.ONE, T.power(u, 2)))))
    if name == "arcsin":
        return T.div(du, T.sqrt(T.sub(T.ONE, T.power(u, 2))))
    raise T.Unsupported("derivative of " + name)
