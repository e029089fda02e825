"""High-precision evaluation of terms (mpmath), used to guess signs, to refute obligations and to pick paths."""
import mpmath
from mpmath import mp, mpf
from . import terms as T

DPS = 60


class Undefined(Exception):
    pass


def _am(u, m):
    if m == 0:
        return u
    K = mp.ellipk(m)
    sn, cn = mp.ellipfun("sn", u, m=m), mp.ellipfun("cn", u, m=m)
    return mp.atan2(mp.re(sn), mp.re(cn)) + 2 * mp.pi * mp.floor((u + 2 * K) / (4 * K))


def _reduce(phi):
    """phi == n*pi + r, |r| <= pi/2"""
    n = mp.nint(phi / mp.pi)
    return n, phi - n * mp.pi


def _F(phi, m):
    n, r = _reduce(phi)
    return (2 * n * mp.ellipk(m) if n else 0) + mp.ellipf(r, m)


def _Einc(phi, m):
    n, r = _reduce(phi)
    return (2 * n * mp.ellipe(m) if n else 0) + mp.ellipe(r, m)


def _Pi(n, m):
    if n > 1:
        # principal value: Pi(n,m) = K(m) - Pi(m/n, m)
        return mp.ellipk(m) - mp.ellippi(m / n, m)
    return mp.ellippi(n, m)


def _Piinc(phi, n, m):
    if n == 1 or (n > 1):
        k, r = _reduce(phi)
        if n > 1:
            s = mp.sin(r)
            d = mp.sqrt(1 - m * s**2)
            N = m / n
            p1 = mp.sqrt((n - 1) * (1 - N))
            v = mp.ellipf(r, m) - mp.ellippi(N, r, m) + mp.log(abs((d + p1 * mp.tan(r)) / (d - p1 * mp.tan(r)))) / (2 * p1)
            return 2 * k * _Pi(n, m) + v
    k, r = _reduce(phi)
    return (2 * k * mp.ellippi(n, m) if k else 0) + mp.ellippi(n, r, m)


def _real(f):
    def g(*a):
        v = f(*a)
        if isinstance(v, mpmath.mpc):
            if abs(v.imag) > mpf(10) ** (-DPS // 2) * (1 + abs(v.real)):
                raise Undefined()
            v = v.real
        return v
    return g


def _asin(x):
    if abs(x) > 1:
        if abs(x) < 1 + mpf(10) ** (-DPS // 2):
            x = mp.sign(x)
        else:
            raise Undefined()
    return mp.asin(x)


def _acos(x):
    return mp.pi / 2 - _asin(x)


def _log(x):
    if x <= 0:
        raise Undefined()
    return mp.log(x)


FN = dict(sin=mp.sin, cos=mp.cos, tan=mp.tan, arctan=mp.atan, arcsin=_asin, arccos=_acos, arctan2=mp.atan2,
          log=_log, exp=mp.exp, K=_real(mp.ellipk), E=_real(mp.ellipe), Pi=_real(_Pi), F=_real(_F), Einc=_real(_Einc),
          Piinc=_real(_Piinc), am=_am, floor=mp.floor,
          sn=_real(lambda u, m: mp.ellipfun("sn", u, m=m)), cn=_real(lambda u, m: mp.ellipfun("cn", u, m=m)),
          dn=_real(lambda u, m: mp.ellipfun("dn", u, m=m)),
          RF=_real(lambda x, y, z: mp.elliprf(x, y, z)), RD=_real(lambda x, y, z: mp.elliprd(x, y, z)),
          RJ=_real(lambda x, y, z, p: mp.elliprj(x, y, z, p)), RC=_real(lambda x, y: mp.elliprc(x, y)))


def _opaque(name, a):
    """an arbitrary smooth function standing for an uninterpreted one"""
    import zlib
    h = zlib.crc32(name.encode())
    acc = mpf(h % 1009) / 1009
    for i, x in enumerate(a):
        acc += x * (mpf((h >> (3 + i)) % 97 + 13) / 50)
    return mp.sin(acc) + 2


class Evaluator:
    """terms at one assignment {var name: number}; memoised"""

    def __init__(self, sample, dps=DPS, stubs=None):
        self.dps = dps
        self.sample = sample
        self.memo = {}
        self.bad = {}
        self.stubs = stubs or {}

    def __call__(self, node):
        with mp.workdps(self.dps):
            return self._ev(node)

    def _ev(self, node):
        memo = self.memo
        if node.id in memo:
            return memo[node.id]
        for n in T.postorder([node]):
            if n.id in memo:
                continue
            memo[n.id] = self._one(n)
        return memo[node.id]

    def _one(self, n):
        memo = self.memo
        op = n.op
        a = [memo[x.id] for x in n.args]
        if any(v is None for v in a) and op not in ("and", "or"):
            return None
        try:
            if op == "const":
                return mpf(n.val.numerator) / n.val.denominator
            if op == "pi":
                return +mp.pi
            if op == "var" or op == "bvar":
                v = self.sample.get(n.val)
                if v is None:
                    return None
                return mpf(v) if op == "var" else bool(v)
            if op == "add":
                return mp.fsum(a)
            if op == "mul":
                r = a[0]
                for v in a[1:]:
                    r = r * v
                return r
            if op == "pow":
                return a[0] ** n.val
            if op == "sqrt":
                if a[0] < 0:
                    if a[0] > -mpf(10) ** (-self.dps // 2):
                        return mpf(0)
                    return None
                return mp.sqrt(a[0])
            if op == "fn":
                f = FN.get(n.val) or self.stubs.get(n.val)
                if f is None:
                    if isinstance(n.val, str) and n.val.startswith("u_"):
                        return _opaque(n.val, a)
                    return None
                return f(*a)
            if op == "rel":
                x = a[0]
                if n.val == "==":
                    return abs(x) < mpf(10) ** (-self.dps * 2 // 3)
                return x < 0 if n.val == "<" else x <= 0
            if op == "not":
                return not a[0]
            if op == "and":
                if any(v is False for v in a):
                    return False
                return None if any(v is None for v in a) else True
            if op == "true":
                return True
            if op == "false":
                return False
        except (Undefined, ZeroDivisionError, ValueError, OverflowError, mpmath.libmp.libhyper.NoConvergence,
                NotImplementedError, TypeError):
            return None
        return None

    def scale(self, node):
        """largest addend magnitude met at the top of the term (for relative thresholds)"""
        with mp.workdps(self.dps):
            if node.op == "add":
                vs = [self._ev(x) for x in node.args]
                return max([abs(v) for v in vs if v is not None] + [mpf(0)])
            v = self._ev(node)
            return abs(v) if v is not None else mpf(0)
