"""Development helper: behaviour-preserving edits; every check has to stay quiet on each.

usage: refactors.py [ids...] [--props C01,C02]   (scratch copies, bind-mounted over /repo)
"""
import ast, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ALL = [f"C{i:02d}" for i in range(1, 23)]
R = {}


def ref(f):
    R[f.__name__] = f
    return f


class Tree:
    def __init__(self, root):
        self.d = root + "/kerrgeopy/"

    def get(self, f):
        return open(self.d + f).read()

    def put(self, f, s):
        ast.parse(s)
        open(self.d + f, "w").write(s)

    def sub(self, f, old, new, n=None):
        s = self.get(f)
        assert s.count(old) >= 1 if n is None else s.count(old) == n, (f, old, s.count(old))
        self.put(f, s.replace(old, new))

    def fn(self, f, name, code):
        """replaces the code of a function after its docstring; code is indented as at top level"""
        s = self.get(f)
        lines = s.split("\n")
        node = [n for n in ast.walk(ast.parse(s)) if isinstance(n, ast.FunctionDef) and n.name == name][0]
        b = node.body
        first = b[1] if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else b[0]
        ind = " " * (node.col_offset + 4)
        code = "\n".join(ind + l[4:] if l.strip() else l for l in code.strip("\n").split("\n"))
        start = (b[0].end_lineno if first is not b[0] else first.lineno - 1)
        self.put(f, "\n".join(lines[:start] + [code] + lines[node.end_lineno:]))

    def before(self, f, name, code):
        s = self.get(f)
        node = [n for n in ast.walk(ast.parse(s)) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name][0]
        lines = s.split("\n")
        at = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
        self.put(f, "\n".join(lines[:at] + [code.strip("\n"), "", ""] + lines[at:]))


CHECK = '''
def _check_params(a, p, e, x):
    if a == 1:
        raise ValueError("Extreme Kerr not supported")
    if not valid_params(a, e, x):
        raise ValueError("a^2, e and x^2 must be between 0 and 1")
    if not is_stable(a, p, e, x):
        raise ValueError("Not a stable orbit")
'''


@ref
def checks_helper(t):
    "argument checks extracted"
    t.before("constants.py", "energy", CHECK)
    s = t.get("constants.py")
    pat = re.compile(r'    if a == 1:\n        raise ValueError\("Extreme Kerr not supported"\)\n    if not valid_params\(a, e, x\):\n        raise ValueError\("a\^2, e and x\^2 must be between 0 and 1"\)\n'
                     r'    if not is_stable\(a, p, e, x\):\n        raise ValueError\("Not a stable orbit"\)\n')
    h = s.index("def energy(")
    s = s[:h] + pat.sub("    _check_params(a, p, e, x)\n", s[h:])
    assert s.count("_check_params(") == 4, s.count("_check_params(")
    t.put("constants.py", s)
    s = t.get("frequencies.py")
    s = s.replace("from .constants import _standardize_params", "from .constants import _check_params, _standardize_params", 1)
    k = len(s)
    s = re.sub(r'(    if not valid_params\(a, e, x\):\n        raise ValueError\("a\^2, e and x\^2 must be between 0 and 1"\)\n'
               r'    if not is_stable\(a, p, e, x\):\n        raise ValueError\("Not a stable orbit"\)\n)', "    _check_params(a, p, e, x)\n", s)
    assert len(s) < k
    t.put("frequencies.py", s)


@ref
def predicates(t):
    t.fn("constants.py", "is_stable", "    return bool(p > separatrix(a, e, x))")
    t.fn("constants.py", "valid_params", "    return bool(0 <= a <= 1 and 0 <= e <= 1 and -1 <= x <= 1)")
    t.fn("constants.py", "_standardize_params", """
    if copysign(1, a) < 0:
        return -a, -x
    return a, x""")
    t.fn("constants.py", "constants_of_motion", """
    E = energy(a, p, e, x)
    L = angular_momentum(a, p, e, x, E=E)
    return E, L, carter_constant(a, p, e, x, E=E, L=L)""")
    t.fn("constants.py", "scale_constants", """
    E, L, Q = constants
    action = mu * M
    return E * mu, L * action, Q * action**2""")


@ref
def coefficients(t):
    "lambdas replaced by straight code, private helpers renamed"
    t.fn("constants.py", "_coefficients", """
    z2 = 1 - x**2
    delta = r * r - 2 * r + a * a
    f = r**4 + a**2 * (r * (r + 2) + z2 * delta)
    g = 2 * a * r
    h = r * (r - 2) + z2 / x**2 * delta
    d = (r**2 + a**2 * z2) * delta
    return f, g, h, d""")
    t.fn("constants.py", "_coefficients_derivative", """
    z2 = 1 - x**2
    return (
        4 * r**3 + 2 * a**2 * ((1 + z2) * r + (1 - z2)),
        2 * a,
        2 * (r - 1) / x**2,
        2 * (2 * r - 3) * r**2 + 2 * a**2 * ((1 + z2) * r - z2),
    )""")
    for f in ("constants.py",):
        s = t.get(f)
        s = re.sub(r"\b_coefficients_derivative\b", "_coefficient_slopes", s)
        s = re.sub(r"\b_coefficients\b", "_coefficient_values", s)
        s = re.sub(r"\b_S_polar\b", "_polar_condition", s)
        s = re.sub(r"\b_S_equatorial\b", "_equatorial_condition", s)
        s = re.sub(r"\b_S\b", "_general_condition", s)
        t.put(f, s)


@ref
def roots(t):
    "polynomial helper; roots sorted differently"
    t.before("constants.py", "stable_radial_roots", '''
def _radial_polynomial(a, E, L, Q):
    """Radial potential as a polynomial in r"""
    return Polynomial(
        [
            -(a**2) * Q,
            2 * (L**2 + Q + a**2 * E**2 - 2 * a * E * L),
            a**2 * (E**2 - 1) - L**2 - Q,
            2,
            E**2 - 1,
        ]
    )
''')
    t.fn("constants.py", "plunging_radial_roots", """
    roots = _radial_polynomial(a, E, L, Q).roots()
    is_real = np.isreal(roots)
    real_roots = np.sort(np.real(roots[is_real]))
    r_minus = 1 - sqrt(1 - a**2)

    if len(real_roots) == 2:
        r1, r2 = real_roots
        r3, r4 = roots[~is_real]
    elif len(real_roots) == 4:
        if real_roots[1] <= r_minus:
            r4, r3, r2, r1 = real_roots
        else:
            r2, r1, r4, r3 = real_roots
    return r1, r2, r3, r4""")
    t.fn("constants.py", "apex_from_constants", """
    r4, r3, r2, r1 = _radial_polynomial(a, E, L, Q).roots()
    beta = a**2 * (1 - E**2)
    z_minus = Polynomial([Q, -(Q + beta + L**2), beta]).roots()[0]

    total = r1 + r2
    p = 2 * r1 * r2 / total
    e = (r1 - r2) / total
    x = np.sign(L) * sqrt(1 - z_minus)
    return a, p, e, x""")
    t.fn("constants.py", "stable_radial_roots", """
    if constants is None:
        constants = constants_of_motion(a, p, e, x)
    E, L, Q = constants
    binding = 1 - E**2
    r1, r2 = p / (1 - e), p / (1 + e)
    outer = r1 * r2
    half_sum = (2 / binding - (r1 + r2)) / 2
    product = a**2 * Q / (outer * binding)
    r3 = half_sum + sqrt(half_sum**2 - product)
    return r1, r2, r3, product / r3""")


@ref
def polar_roots(t):
    t.fn("constants.py", "stable_polar_roots", """
    E, L, Q = constants_of_motion(a, p, e, x) if constants is None else constants
    z_minus = 1 - x**2
    if a == 0:
        return z_minus, nan
    epsilon0 = a**2 * (1 - E**2) / L**2
    return z_minus, 1 + 1 / (epsilon0 * x**2)""")
    t.fn("constants.py", "carter_constant", """
    a, x = _standardize_params(a, x)
    if a == 1:
        raise ValueError("Extreme Kerr not supported")
    if not valid_params(a, e, x):
        raise ValueError("a^2, e and x^2 must be between 0 and 1")
    if not is_stable(a, p, e, x):
        raise ValueError("Not a stable orbit")

    if x == 0:
        e2 = e**2
        num = a**4 * (e2 - 1) ** 2 + p**4 + 2 * a**2 * p * (-2 + p + e2 * (2 + p))
        den = a**4 * (-1 + e2) ** 2 * (-1 + e2 - p) + (3 + e2 - p) * p**4 - 2 * a**2 * p**2 * (-1 - e**4 + p + e2 * (2 + p))
        return -(p**2) * num / den

    if E is None:
        E = energy(a, p, e, x)
    if L is None:
        L = angular_momentum(a, p, e, x, E)
    z2 = 1 - x**2
    return z2 * (a**2 * (1 - E**2) + L**2 / x**2)""")


@ref
def separatrix_loop(t):
    t.fn("constants.py", "separatrix", """
    if a == 1:
        raise ValueError("Extreme Kerr not supported")
    if not valid_params(a, e, x):
        raise ValueError("a^2, e and x^2 must be between 0 and 1")
    if a == 0:
        return 6 + 2 * e

    def solve(func, low, high, *extra):
        return root_scalar(func, args=(a, e, *extra), bracket=(low, high)).root

    if x == -1:
        return solve(_S_equatorial, 6 + 2 * e, 5 + e + 4 * sqrt(1 + e))
    prograde = None
    if x > 0:
        prograde = solve(_S_equatorial, 1 + e, 6 + 2 * e)
        if x == 1:
            return prograde
    polar = solve(_S_polar, 1 + sqrt(3) + sqrt(3 + 2 * sqrt(3)), 8)
    if x == 0:
        return polar
    if x > 0:
        return solve(_S, prograde, polar, x)
    return solve(_S, polar, 12, x)""")


@ref
def separatrix_tolerance(t):
    "another root finder, tighter tolerance"
    s = t.get("constants.py")
    s = s.replace("bracket=polar_bracket", 'bracket=polar_bracket, method="brentq", xtol=1e-14')
    t.put("constants.py", s)


@ref
def modulus(t):
    "squared moduli used directly, horizon helper, common factors"
    for f in ("frequencies.py",):
        s = t.get(f)
        s = re.sub(r"k_r = sqrt\(\((r1 - r2)\) \* \((r3 - r4)\) / \(\(r1 - r3\) \* \(r2 - r4\)\)\)", "m_r = (r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4))", s)
        a, b = s.split("def plunging_mino_frequencies")
        h, b2 = b.split("def _r_frequency_from_constants")
        a = a.replace("k_r**2", "m_r")
        b2 = b2.replace("k_r**2", "m_r")
        t.put(f, a + "def plunging_mino_frequencies" + h + "def _r_frequency_from_constants" + b2)
    t.fn("frequencies.py", "mino_frequencies", """
    constants = constants_of_motion(a, p, e, x)
    args = (a, p, e, x, constants)
    upsilon_r = r_frequency(*args)
    upsilon_theta = theta_frequency(*args)
    return (
        upsilon_r,
        abs(upsilon_theta),
        phi_frequency(*args, upsilon_r=upsilon_r, upsilon_theta=upsilon_theta),
        gamma(*args, upsilon_r=upsilon_r, upsilon_theta=upsilon_theta),
    )""")
    t.fn("frequencies.py", "fundamental_frequencies", """
    *upsilons, Gamma = mino_frequencies(a, p, e, x)
    return tuple(upsilon / Gamma for upsilon in upsilons)""")
    t.fn("frequencies.py", "_fundamental_frequencies_from_constants", """
    u = _mino_frequencies_from_constants(a, constants, radial_roots, polar_roots)
    return u[0] / u[3], u[1] / u[3], u[2] / u[3]""")


@ref
def delegate(t):
    "public frequencies delegate to the functions of the constants"
    for n in ("r", "theta", "phi"):
        pass
    s = t.get("frequencies.py")
    i = s.index("def r_frequency")
    j = s.index("def theta_frequency")
    body = s[i:j]
    k = body.rindex("    E, L, Q = constants")
    body = body[:k] + "    radial_roots = stable_radial_roots(a, p, e, x, constants)\n    return _r_frequency_from_constants(constants, radial_roots)\n\n\n"
    s = s[:i] + body + s[j:]
    i = s.index("def phi_frequency")
    j = s.index("def gamma")
    body = s[i:j]
    k = body.rindex("    E, L, Q = constants")
    body = body[:k] + """    return _phi_frequency_from_constants(
        a,
        constants,
        stable_radial_roots(a, p, e, x, constants),
        stable_polar_roots(a, p, e, x, constants),
        upsilon_r,
        upsilon_theta,
    )


"""
    t.put("frequencies.py", s[:i] + body + s[j:])


@ref
def elliptic(t):
    "parity by arithmetic instead of where; reduced angle helper"
    t.before("frequencies.py", "_ellipeinc", '''
def _reduce_angle(phi):
    num_cycles = floor(phi / (pi / 2))
    return num_cycles, abs(arcsin(sin(phi)))
''')
    t.fn("frequencies.py", "_ellipeinc", """
    num_cycles, phi = _reduce_angle(phi)
    s, c2 = sin(phi), cos(phi) ** 2
    y = 1 - m * s**2
    integral = s * elliprf(c2, y, 1) - m * s**3 * elliprd(c2, y, 1) / 3
    even = num_cycles % 2 == 0
    result = where(even, num_cycles, num_cycles + 1) * ellipe(m) + where(even, 1, -1) * integral
    return result.item() if np.isscalar(phi) else result""")
    t.fn("frequencies.py", "_ellippiinc", """
    num_cycles, phi = _reduce_angle(phi)
    s, c2 = sin(phi), cos(phi) ** 2
    y = 1 - m * s**2
    integral = s * elliprf(c2, y, 1) + n * s**3 * elliprj(c2, y, 1, 1 - n * s**2) / 3
    complete = _ellippi(n, m)
    result = where(
        num_cycles % 2 == 0,
        num_cycles * complete + integral,
        num_cycles * complete + complete - integral,
    )
    return result.item() if np.isscalar(phi) else result""")


@ref
def metric(t):
    t.fn("spacetime.py", "metric", """
    a = self.a
    sin2 = sin(theta) ** 2
    sigma = r**2 + a**2 * cos(theta) ** 2
    delta = r**2 - 2 * r + a**2
    g = np.zeros((4, 4))
    g[0, 0] = 2 * r / sigma - 1
    g[0, 3] = g[3, 0] = -2 * a * r * sin2 / sigma
    g[1, 1] = sigma / delta
    g[2, 2] = sigma
    g[3, 3] = sin2 * (r**2 + a**2 + 2 * a**2 * r * sin2 / sigma)
    return g""")
    t.fn("spacetime.py", "norm", """
    g = self.metric(t, r, theta, phi)
    return sum(g[i, j] * v[i] * v[j] for i in range(4) for j in range(4))""")


@ref
def metric2(t):
    t.fn("spacetime.py", "norm", """
    v = np.asarray(v)
    return v @ self.metric(t, r, theta, phi) @ v""")
    t.fn("spacetime.py", "is_stable", "    return bool(p > self.separatrix(e, x))")
    s = t.get("spacetime.py")
    s = s.replace("    def separatrix(self", "    def _sigma(self, r, theta):\n        return r**2 + self.a**2 * cos(theta) ** 2\n\n    def _delta(self, r):\n        return r**2 - 2 * r + self.a**2\n\n    def separatrix(self", 1)
    s = s.replace("sigma = r(time) ** 2 + a**2 * cos(theta(time)) ** 2", "sigma = self._sigma(r(time), theta(time))")
    s = s.replace("delta = r(time) ** 2 - 2 * r(time) + a**2", "delta = self._delta(r(time))")
    assert s.count("self._sigma(") == 4
    t.put("spacetime.py", s)


@ref
def metric3(t):
    t.fn("spacetime.py", "norm", "    return np.einsum('i,ij,j->', v, self.metric(t, r, theta, phi), v)")


@ref
def stencil(t):
    "one derivative helper; loops"
    t.fn("orbit.py", "numerical_four_velocity", """
    if initial_phases is None:
        initial_phases = self.initial_phases
    coordinates = self.trajectory(initial_phases)
    r, theta = coordinates[1], coordinates[2]

    def component(f):
        def u(mino_time):
            total = 0
            for shift, weight in ((2, -1), (1, 8), (-1, -8), (-2, 1)):
                total = total + weight * f(mino_time + shift * dx)
            sigma = r(mino_time) ** 2 + self.a**2 * cos(theta(mino_time)) ** 2
            return total / (12 * dx * sigma)

        return u

    return tuple(component(f) for f in coordinates)""")
    t.before("orbit.py", "_four_velocity_norm", """
    def _norm_function(self, trajectory, velocity):
        spacetime = KerrSpacetime(self.a)
        return lambda time: spacetime.norm(*[f(time) for f in trajectory], [f(time) for f in velocity])
""")
    t.fn("orbit.py", "_four_velocity_norm", """
    if initial_phases is None:
        initial_phases = self.initial_phases
    return self._norm_function(self.trajectory(initial_phases), self.four_velocity(initial_phases))""")
    t.fn("orbit.py", "_numerical_four_velocity_norm", """
    if initial_phases is None:
        initial_phases = self.initial_phases
    return self._norm_function(self.trajectory(initial_phases), self.numerical_four_velocity(dx, initial_phases))""")


@ref
def visible(t):
    t.fn("orbit.py", "is_visible", """
    event_horizon = 1 + sqrt(1 - self.a**2)
    elevation, azimuth = np.radians(elevation), np.radians(azimuth)
    normal = np.array([cos(elevation) * cos(azimuth), cos(elevation) * sin(azimuth), sin(elevation)])
    depth = points @ normal
    distance = np.linalg.norm(points, axis=1)
    in_plane = np.linalg.norm(points - depth[:, np.newaxis] * normal, axis=1)
    in_front = depth >= 0
    return (distance > event_horizon) & (in_front | (in_plane > event_horizon))""")


@ref
def visible_loop(t):
    t.fn("orbit.py", "is_visible", """
    event_horizon = 1 + sqrt(1 - self.a**2)
    el, az = elevation * pi / 180, azimuth * pi / 180
    n = (cos(el) * cos(az), cos(el) * sin(az), sin(el))
    out = []
    for x, y, z in points:
        d = x * n[0] + y * n[1] + z * n[2]
        r2 = x**2 + y**2 + z**2
        out.append(bool(r2 > event_horizon**2 and (d >= 0 or r2 - d**2 > event_horizon**2)))
    return np.array(out, dtype=bool)""")


@ref
def orbit_init(t):
    s = t.get("orbit.py")
    s = s.replace("        spacetime = KerrSpacetime(a)\n        initial_norm", "        initial_norm", 1)
    s = s.replace("initial_norm = spacetime.norm(*initial_position, initial_velocity)", "initial_norm = KerrSpacetime(a).norm(\n            *initial_position, initial_velocity\n        )", 1)
    s = s.replace("if is_stable(a, initial_position, initial_velocity):", "self.stable = is_stable(\n            a, initial_position, initial_velocity, constants=(E, L, Q)\n        )\n        if self.stable:", 1)
    t.put("orbit.py", s)
    t.fn("orbit.py", "constants_of_motion", """
    constants = self.E, self.L, self.Q
    if units == "natural":
        return constants
    if self.M is None or self.mu is None:
        raise ValueError("M and mu must be specified to convert constants of motion to physical units")
    converters = {
        "mks": (energy_in_joules, angular_momentum_in_mks, carter_constant_in_mks),
        "cgs": (energy_in_ergs, angular_momentum_in_cgs, carter_constant_in_cgs),
    }
    if units not in converters:
        raise ValueError("units must be one of 'natural', 'mks', or 'cgs'")
    ratio = self.mu / self.M
    scaled = scale_constants(constants, 1, ratio)
    return tuple(convert(value, self.M) for convert, value in zip(converters[units], scaled))""")


@ref
def deltas(t):
    "duplicate code of the classes shared"
    s = t.get("stable.py")
    t.fn("stable.py", "trajectory_deltas", """
    return super().trajectory_deltas(initial_phases)""")
    t.fn("plunge.py", "trajectory_deltas", """
    return Orbit.trajectory_deltas(self, initial_phases)""")


@ref
def trajectory_tables(t):
    "conversion tables at module level, constants computed once"
    for f in ("stable.py", "plunge.py"):
        s = t.get(f)
        n = s.count("    distance_conversion_func = {")
        pat = re.compile(r"    (distance_conversion_func|time_conversion_func) = \{.*?\n    \}\n", re.S)
        blocks = {m.group(1): m.group(0) for m in pat.finditer(s)}
        assert len(blocks) == 2 and n >= 1
        s = pat.sub("", s)
        s = s.replace("distance_conversion_func[", "_DISTANCE[").replace("time_conversion_func[", "_TIME[")
        import textwrap
        mod = "".join(textwrap.dedent(b) for b in blocks.values()).replace("distance_conversion_func", "_DISTANCE").replace("time_conversion_func", "_TIME")
        i = s.index("class ")
        t.put(f, s[:i] + mod + "\n\n" + s[i:])
    s = t.get("stable.py")


@ref
def jacobi(t):
    "repeated elliptic function calls shared, prefactors rearranged"
    t.fn("stable.py", "radial_solutions", """
    E, L, Q = constants
    r1, r2, r3, r4 = radial_roots
    root = sqrt(1 - a**2)
    horizons = (1 + root, 1 - root)
    h_r = (r1 - r2) / (r1 - r3)
    m = (r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4))
    norm = sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))

    def jacobi(q_r):
        return ellipj(ellipk(m) * q_r / pi, m)

    def oscillation(h, psi_r, q_r):
        return _ellippiinc(psi_r, h, m) - q_r / pi * _ellippi(h, m)

    def r(q_r):
        sn2 = jacobi(q_r)[0] ** 2
        return (r2 * (r1 - r3) - r3 * (r1 - r2) * sn2) / ((r1 - r3) - (r1 - r2) * sn2)

    def at_horizons(psi_r, q_r, weight):
        total = 0
        for s, rh in zip((1, -1), horizons):
            h = (r1 - r2) * (r3 - rh) / ((r1 - r3) * (r2 - rh))
            total = total + s * weight(rh) * (r2 - r3) / ((r3 - rh) * (r2 - rh)) * oscillation(h, psi_r, q_r)
        return total / (2 * root)

    def t_r(q_r):
        sn, cn, dn, psi_r = jacobi(q_r)
        pi_r = oscillation(h_r, psi_r, q_r)
        e_r = _ellipeinc(psi_r, m) + h_r * sn * cn * sqrt(1 - m * sn**2) / (h_r * sn**2 - 1) - q_r / pi * ellipe(m)
        total = E / 2 * (r1 - r3) * (r2 - r4) * e_r + E * (r2 - r3) * (2 + (r1 + r2 + r3 + r4) / 2) * pi_r
        total = total - 2 * at_horizons(psi_r, q_r, lambda rh: (4 * E - a * L) * rh - 2 * a**2 * E)
        return 2 * total / norm

    def phi_r(q_r):
        psi_r = jacobi(q_r)[3]
        return -2 * a / norm * at_horizons(psi_r, q_r, lambda rh: 2 * E * rh - a * L)

    return r, t_r, phi_r""")


@ref
def complex_plunge(t):
    "the two horizon integrals share one function; radius of the argument computed once"
    s = t.get("plunge.py")
    i, j = s.index("    def I_r_plus(q_r):"), s.index("    return I_r, I_r2, I_r_plus, I_r_minus")
    new = '''    def horizon_integral(rh, D):
        def I_h(q_r):
            sn, cn, dn, xi_r = ellipj(2 * ellipk(k_r**2) * q_r / pi, k_r**2)
            mino_time = q_r / upsilon_r
            w = D * sqrt(1 - D**2 * k_r**2)
            v = (k_r * (D**2 - sn**2)) ** 2
            den = A * (r1 - rh) - B * (r2 - rh)
            first = (A - B) * mino_time / den
            second = (
                (r2 - r1)
                * (A * (r1 - rh) + B * (r2 - rh))
                / (2 * sqrt(A * B * (1 - E**2)) * (rh - r1) * (r2 - rh) * den)
                * _ellippiinc(xi_r, 1 / D**2, k_r**2)
            )
            third = (
                sqrt(r2 - r1)
                * log(((w + dn * sn) ** 2 + v) / ((w - dn * sn) ** 2 + v))
                / (
                    4
                    * sqrt((1 - E**2) * (r2 - rh) * (rh - r1))
                    * sqrt(A**2 * (rh - r1) - (r2 - rh) * (r1**2 - B**2 + r2 * rh - r1 * (r2 + rh)))
                )
            )
            return first + second - third

        return I_h

    I_r_plus = horizon_integral(r_plus, D_plus)
    I_r_minus = horizon_integral(r_minus, D_minus)
'''
    t.put("plunge.py", s[:i] + new + "\n" + s[j:])
    t.fn("plunge.py", "plunging_trajectory", """
    complex_roots = np.iscomplex(plunging_radial_roots(a, E, L, Q)[3])
    solve = _complex_plunge_trajectory if complex_roots else _real_plunge_trajectory
    return solve(a, E, L, Q, initial_phases, M, distance_units, time_units)""")


@ref
def polar_plunge(t):
    "polar roots helper shared by three functions"
    t.before("frequencies.py", "plunging_mino_frequencies", '''
def _plunging_polar_roots(a, E, L, Q):
    beta = a**2 * (1 - E**2)
    s = 1 + (L**2 + Q) / beta
    d = sqrt(s**2 - 4 * Q / beta)
    return sqrt((s - d) / 2), sqrt(beta / 2 * (s + d))
''')
    for f in ("frequencies.py", "initial_conditions.py", "plunge.py"):
        s = t.get(f)
        i = s.index("z1 = sqrt(\n") if "z1 = sqrt(\n" in s else s.index("z1 = sqrt(")
        ls = s.rfind("\n", 0, i) + 1
        ind = s[ls:i]
        j = s.index("k_theta", i)
        rest = s[i:j]
        keep = "".join(ind + l.strip() + "\n" for l in rest.split("\n") if l.strip().startswith("z1 = min(") )
        com = "\n" + ind + "z1, z2 = _plunging_polar_roots(a, E, L, Q)\n" + keep + ind
        s = s[:ls] + com.lstrip("\n") + s[j:]
        if f != "frequencies.py":
            i = s.index("\nfrom .")
            s = s[:i] + "\nfrom .frequencies import _plunging_polar_roots" + s[i:]
        t.put(f, s)


@ref
def cramer(t):
    "linear system solved by hand"
    t.fn("initial_conditions.py", "constants_from_initial_conditions", """
    r0, theta0 = initial_position[1], initial_position[2]
    dt0, dr0, dtheta0, dphi0 = initial_velocity
    c2 = cos(theta0) ** 2
    s2 = 1 - c2
    sigma = r0**2 + a**2 * c2
    delta = r0**2 - 2 * r0 + a**2
    m = 2 * r0 / sigma
    # lowered components of the velocity
    E = (1 - m) * dt0 + a * m * s2 * dphi0
    L = -a * m * s2 * dt0 + s2 * (r0**2 + a**2 + a**2 * m * s2) * dphi0
    Q = ((sigma * dtheta0) ** 2) + c2 * (a**2 * (1 - E**2) + L**2 / s2)
    return E, L, Q""")


@ref
def classify(t):
    t.fn("initial_conditions.py", "is_stable", """
    r0 = initial_position[1]
    if constants is None:
        constants = constants_from_initial_conditions(a, initial_position, initial_velocity)
    E, L, Q = constants
    potential = Polynomial(
        [
            -(a**2) * Q,
            2 * (L**2 + Q + a**2 * E**2 - 2 * a * E * L),
            a**2 * E**2 - L**2 - Q - a**2,
            2,
            E**2 - 1,
        ]
    )
    roots = potential.roots()
    real = np.isreal(roots)
    n = np.count_nonzero(real)
    if n == 0:
        raise ValueError("Not a physical orbit")
    if n == 2:
        return False
    r4, r3, r2, r1 = np.sort(np.real(roots[real]))
    r_minus = 1 - sqrt(1 - a**2)
    outer = r2 - tol <= r0 <= r1 + tol
    if outer and r2 != r_minus:
        return bool(r2 > r_minus)
    if r2 > r_minus and r4 - tol <= r0 <= r3 + tol:
        return False
    raise ValueError("Not a physical orbit")""")


@ref
def phases(t):
    "early returns, helper for the turning points"
    s = t.get("initial_conditions.py")
    s = s.replace("    q_t0 = t0\n    q_phi0 = phi0\n    return (q_t0, q_r0, q_theta0, q_phi0)", "    return t0, q_r0, q_theta0, phi0")
    s = s.replace("    if abs(r0 - r2) < tol:\n        q_r0 = 0\n    elif abs(r0 - r1) < tol:\n        q_r0 = pi\n",
                  "    at_periapsis = abs(r0 - r2) < tol\n    at_apoapsis = abs(r0 - r1) < tol\n    if at_periapsis or at_apoapsis:\n        q_r0 = 0 if at_periapsis else pi\n")
    assert "at_periapsis" in s
    t.put("initial_conditions.py", s)


@ref
def units(t):
    s = t.get("units.py")
    s += '\n\n_seconds_per_day = 24 * 60 * 60\n'
    t.put("units.py", s)
    t.fn("units.py", "time_in_days", "    return time_in_seconds(t, M) / _seconds_per_day")
    t.fn("units.py", "time2_in_seconds2", "    return time_in_seconds(time_in_seconds(t, M), M)")
    t.fn("units.py", "distance_in_meters", "    return mass_in_kg(M) * (G / c**2) * d")
    t.fn("units.py", "frequency_in_Hz", "    return f / time_in_seconds(1, M)")
    t.fn("units.py", "carter_constant_in_mks", "    return Q * (G / c * mass_in_kg(M) ** 2) ** 2")


@ref
def stable_class(t):
    t.fn("stable.py", "fundamental_frequencies", """
    omegas = self.omega_r, self.omega_theta, self.omega_phi
    if units == "natural":
        return omegas
    if self.M is None:
        raise ValueError("M must be specified to convert frequencies to physical units")
    if units in ("mks", "cgs"):
        convert = frequency_in_Hz
    elif units == "mHz":
        convert = frequency_in_mHz
    else:
        raise ValueError("units must be one of 'natural', 'mks', 'cgs', or 'mHz'")
    return tuple(convert(omega, self.M) for omega in omegas)""")
    s = t.get("stable.py")
    s = s.replace("        u_t, u_r, u_theta, u_phi = self.four_velocity()\n        t, r, theta, phi = self.trajectory()\n",
                  "        self.initial_position = tuple(f(0) for f in self.trajectory())\n        self.initial_velocity = tuple(f(0) for f in self.four_velocity())\n", 1)
    s = s.replace("        self.initial_position = t(0), r(0), theta(0), phi(0)\n        self.initial_velocity = u_t(0), u_r(0), u_theta(0), u_phi(0)\n", "", 1)
    t.put("stable.py", s)


@ref
def cache(t):
    "exact memo of a pure function"
    s = t.get("constants.py")
    s = s.replace("from numpy.polynomial import Polynomial", "from numpy.polynomial import Polynomial\nfrom functools import lru_cache", 1)
    s = s.replace("def separatrix(", "@lru_cache(maxsize=128)\ndef separatrix(", 1)
    t.put("constants.py", s)


@ref
def polar_solution(t):
    t.fn("stable.py", "polar_solutions", """
    E, L, Q = constants
    z_minus, z_plus = polar_roots
    prograde = sign(L)
    x2 = 1 - z_minus
    m = 0 if a == 0 else z_minus / z_plus
    e0zp = a**2 * (1 - E**2) / L**2 + 1 / x2
    if a == 0:
        scale = L**2 / ((1 - E**2) * sqrt(x2))
    else:
        scale = a**2 * z_plus / sqrt(a**2 * (1 - E**2) / L**2 * z_plus)

    def argument(q_theta):
        return 2 / pi * (q_theta + pi / 2)

    def theta(q_theta):
        sn = ellipj(ellipk(m) * argument(q_theta), m)[0]
        return arccos(sqrt(z_minus) * sn)

    def t_theta(q_theta):
        y = argument(q_theta)
        psi = ellipj(ellipk(m) * y, m)[3]
        return prograde * scale * E / L * (ellipe(m) * y - _ellipeinc(psi, m))

    def phi_theta(q_theta):
        y = argument(q_theta)
        psi = ellipj(ellipk(m) * y, m)[3]
        return prograde / sqrt(e0zp) * (_ellippiinc(psi, z_minus, m) - _ellippi(z_minus, m) * y)

    return theta, t_theta, phi_theta""")


@ref
def plot_helper(t):
    t.before("orbit.py", "plot", '''
    @staticmethod
    def _cartesian(r, theta, phi):
        return r * sin(theta) * cos(phi), r * sin(theta) * sin(phi), r * cos(theta)
''')
    s = t.get("orbit.py")
    s = s.replace("        trajectory_x = r(time) * sin(theta(time)) * cos(phi(time))\n        trajectory_y = r(time) * sin(theta(time)) * sin(phi(time))\n        trajectory_z = r(time) * cos(theta(time))\n",
                  "        trajectory_x, trajectory_y, trajectory_z = self._cartesian(r(time), theta(time), phi(time))\n")
    assert s.count("self._cartesian(") == 2
    s = s.replace("eh = 1 + sqrt(1 - self.a**2)", "eh = KerrSpacetime(self.a).outer_horizon")
    s = s.replace("                j = speed_multiplier * i\n", "                j = i * speed_multiplier\n")
    t.put("orbit.py", s)


@ref
def fast_separatrix(t):
    t.fn("constants.py", "fast_separatrix", """
    e = np.linspace(0, 1, int(1 / grid_spacing))
    x = np.linspace(-1, 1, int(2 / grid_spacing))
    P = np.array([[separatrix(a, ei, xj) for xj in x] for ei in e])
    return RectBivariateSpline(e, x, P)""")


@ref
def noops(t):
    "comment lines, statements that do nothing, annotations"
    for f in os.listdir(t.d):
        if not f.endswith(".py"):
            continue
        s = t.get(f)
        tree = ast.parse(s)
        lines = s.split("\n")
        at = []
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                b = n.body
                first = b[1] if len(b) > 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else b[0]
                at.append((first.lineno - 1, " " * first.col_offset))
        for l, ind in sorted(at, reverse=True):
            lines[l:l] = [ind + "_unused = None", ind + "assert True"]
        t.put(f, "\n".join(lines) + "\n# end of file\n")


FILES = {}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    ids = [a for a in sys.argv[1:] if a in R] or list(R)
    props = ALL
    for a in sys.argv[1:]:
        if a.startswith("--props"):
            props = a.split("=")[1].split(",")
    os.makedirs("/tmp/refwork", exist_ok=True)
    jobs = []
    for i in ids:
        w = f"/tmp/refwork/{i}"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True)
        R[i](Tree(w))
        r = sh(f"cd {w} && timeout 600 /opt/venv/bin/python -m pytest tests -q -x -p no:cacheprovider 2>&1 | tail -3") if "--test" in sys.argv else None
        if r:
            print(i, r.stdout.strip().split("\n")[-1], flush=True)
        jobs += [(i, w, p) for p in props]

    def one(j):
        i, w, p = j
        r = sh(f"unshare -Urm bash -c 'mount --bind {w} /repo && cd /verif && VERIF_SEED=${{VERIF_SEED:-1}} PYTHONDONTWRITEBYTECODE=1 timeout 900 /opt/venv/bin/python -m kv.run --property {p}'")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if v or r.returncode:
            k = [l for l in r.stdout.splitlines() if l.startswith("  ")]
            return f"{i} {p}: ALARM rc={r.returncode} {v[:1]} {k[:1]} {r.stderr[-300:]}"[:600]
        l = [x for x in r.stdout.splitlines() if x.startswith(p + ": obligations")]
        return f"{i} {p}: quiet {l[-1][5:140] if l else r.stdout[-200:]}"
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for o in ex.map(one, jobs):
            print(o, flush=True)


if __name__ == "__main__":
    main()
