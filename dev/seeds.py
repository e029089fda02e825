"""planted changes: (file, old text, new text) edits, a demonstration, and what they need"""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("c12-negative-phase", "C12", [("spacetime.py", "np.copysign(1, sin(q_theta))", "np.where(np.fix(q_theta / pi) % 2 == 0, 1, -1)")], """
o = kg.StableOrbit(.9, 8, .3, .6)
t, r, th, ph = o.trajectory()
u = o.four_velocity()[2]
for l in (.3, -.3, -1.0):
    d = (th(l + 1e-5) - th(l - 1e-5)) / 2e-5 / (r(l)**2 + .81 * cos(th(l))**2)
    assert abs(u(l) - d) < 1e-6, (l, u(l), d)
""", "a negative polar phase (negative Mino time): truncation and floor differ only there", "u^theta has the wrong sign on every half oscillation at negative phase")

seed("c11-zero-phases-ignored", "C11", [("stable.py", """        if initial_phases is None:
            initial_phases = self.initial_phases
        q_t0""", """        if initial_phases is None or not any(initial_phases):
            initial_phases = self.initial_phases
        q_t0""")], """
o = kg.StableOrbit(.9, 8, .3, .6, initial_phases=(0, 1, 2, 0))
d = o.trajectory_deltas((0, 0, 0, 0))
w = kg.StableOrbit(.9, 8, .3, .6).trajectory_deltas()
for f, g in zip(d, w):
    assert abs(f(.7) - g(.7)) < 1e-9
""", "all-zero phases passed explicitly to an orbit whose own phases are not zero", "explicit zero phases are replaced by the orbit's own phases")

seed("c05-retrograde-bracket", "C05", [("constants.py", "bracket=[p_polar.root, 12])", "bracket=[p_polar.root, 11.2])")], """
p = kg.separatrix(.99, .97, -.99)
assert 11.2 < p < 12, p
""", "a rapidly spinning hole, eccentricity close to 1 and nearly equatorial retrograde orbit (separatrix above 11.2)", "the separatrix raises because its bracket no longer contains the root")


seed("c01-near-circular", "C01", [("constants.py", """    # spherical case
    if e == 0:""", """    # spherical case
    if e < 1e-3:""")], """
a, p, e, x = .9, 8, 9e-4, .6
E, L, Q = kg.constants.constants_of_motion(a, p, e, x)
R = lambda r: (E * (r**2 + a**2) - a * L)**2 - (r**2 - 2 * r + a**2) * (r**2 + (a * E - L)**2 + Q)
for r in (p / (1 - e), p / (1 + e)):
    assert abs(R(r)) < 1e-11 * r**4, R(r)
""", "an eccentricity between 0 and 0.001", "the energy of a nearly circular orbit is that of the circular one, so its turning points are not where they were asked for")

seed("c03-snap-equatorial", "C03", [("constants.py", "    x = np.sign(L) * sqrt(1 - z_minus)", "    x = np.sign(L) * sqrt(1 - (z_minus if z_minus > 1e-3 else 0))")], """
from kerrgeopy.constants import *
E, L, Q = constants_of_motion(.9, 8, .3, .9999)
assert abs(apex_from_constants(.9, E, L, Q)[3] - .9999) < 1e-8
""", "an orbit inclined by less than two degrees, but not equatorial", "nearly equatorial orbits come back from their constants as equatorial")

seed("c03-eccentricity-snap", "C03", [("constants.py", """    e = (r1 - r2) / (r1 + r2)
    x = np.sign(L)""", """    e = (r1 - r2) / (r1 + r2) if abs(r1 - r2) > 1e-3 * p else 0
    x = np.sign(L)""")], """
E, L, Q = kg.constants.constants_of_motion(.9, 8, 4e-4, .6)
o = kg.StableOrbit.from_constants(.9, E, L, Q)
assert abs(o.e - 4e-4) < 1e-6, o.e
""", "an eccentricity below 0.0005", "small eccentricities are lost in the conversion from constants of motion")

seed("c05-small-spin", "C05", [("constants.py", """    if a == 0:
        return 6 + 2 * e

    polar""", """    if a < 1e-3:
        return 6 + 2 * e

    polar""")], """
s = kg.separatrix(9e-4, .3, .5)
assert abs(s - 6.6) > 1e-4, s
assert not kg.constants.is_stable(9e-4, 6.601, .3, -1)
""", "a nonzero spin below 0.001", "slowly spinning holes get the Schwarzschild separatrix")

seed("c07-equatorial-retrograde-gamma", "C07", [("frequencies.py", """    upsilon_phi = phi_frequency(a, p, e, x, constants, upsilon_r, upsilon_theta)
    Gamma = gamma(a, p, e, x, constants, upsilon_r, upsilon_theta)

    return upsilon_r / Gamma""", """    upsilon_phi = phi_frequency(a, p, e, x, constants, upsilon_r, upsilon_theta)
    Gamma = gamma(a, p, e, x, constants, upsilon_r, abs(upsilon_theta))

    return upsilon_r / Gamma""")], """
for x in (.5, -.5):
    f, m = kg.fundamental_frequencies(.9, 10, .3, x), kg.mino_frequencies(.9, 10, .3, x)
    for i in range(3):
        assert abs(f[i] - m[i] / m[3]) < 1e-9, (x, i)
""", "a retrograde inclined orbit", "the Boyer-Lindquist frequencies of retrograde inclined orbits use the wrong time-dilation factor")

seed("c16-complex-plunge-au", "C16", [("plunge.py", """    distance_conversion_func = {
        "natural": lambda x, M: x,
        "mks": distance_in_meters,
        "cgs": distance_in_cm,
        "au": distance_in_au,
        "km": distance_in_km,
    }
    time_conversion_func = {
        "natural": lambda x, M: x,
        "mks": time_in_seconds,
        "cgs": time_in_seconds,
        "days": time_in_days,
    }

    # adjust q_theta0""", """    distance_conversion_func = {
        "natural": lambda x, M: x,
        "mks": distance_in_meters,
        "cgs": distance_in_cm,
        "au": distance_in_au,
        "km": distance_in_km,
    }
    time_conversion_func = {
        "natural": lambda x, M: x,
        "mks": time_in_seconds,
        "cgs": time_in_days,
        "days": time_in_days,
    }

    # adjust q_theta0""")], """
o = kg.PlungingOrbit(.9, .94, .1, 12, M=1e6)
assert np.iscomplex(kg.constants.plunging_radial_roots(.9, .94, .1, 12)).any()
t0, t1 = o.trajectory(time_units="mks")[0], o.trajectory(time_units="cgs")[0]
assert abs(t0(.1) - t1(.1)) <= 1e-9 * abs(t0(.1))
""", "a plunge with two complex roots and time_units='cgs'", "coordinate time asked for in cgs units is in days")

seed("c16-prograde-mhz", "C16", [("units.py", "    return d * G / c**2 * mass_in_kg(M)", "    return d * (G * M / c**2 * solar_mass if M < 1e9 else M * 1476.6)")], """
from kerrgeopy.units import *
w = 3.0 * 6.67408e-11 / 299792458.0**2 * 1.98847e30 * 3e9
assert abs(distance_in_meters(3.0, 3e9) - w) < 1e-9 * w
""", "a black hole of more than a billion solar masses", "distances around very heavy holes are converted with a rounded constant")

seed("c17-loose-normalisation", "C17", [("orbit.py", "abs(initial_norm + 1) > 1e-6", "abs(initial_norm + 1) > 1e-3")], """
s = kg.StableOrbit(.9, 8, .3, .6, initial_phases=(0, 1, 1, 0))
u = np.array(s.initial_velocity) * (1 + 1e-4)
try:
    kg.Orbit(.9, s.initial_position, tuple(u))
    raise SystemExit("accepted")
except ValueError:
    pass
""", "a velocity whose norm is off by between 1e-6 and 1e-3", "velocities that are not normalised within the tolerance are accepted")

seed("c20-rounded-cache", "C20", [("constants.py", """def separatrix(a, e, x):""", """_known = {}


def separatrix(a, e, x):"""), ("constants.py", """    if x > 0:
        p = root_scalar(_S, args=(a, e, x), bracket=[p_equatorial_prograde.root, p_polar.root])
        return p.root
""", """    if x > 0:
        key = tuple(round(float(v), 8) for v in (a, e, x))
        if key not in _known:
            _known[key] = root_scalar(
                _S, args=(a, e, x), bracket=[p_equatorial_prograde.root, p_polar.root]
            ).root
        return _known[key]
""")], """
import subprocess, sys as s
p = lambda x: kg.separatrix(.9, .3, x)
q = lambda x: float(subprocess.run([s.executable, "-W", "ignore", "-c", f"import kerrgeopy as kg; print(repr(float(kg.separatrix(.9, .3, {x!r}))))"], capture_output=True, text=True).stdout)
p(.5)
x = .5 + 4e-9
assert p(x) == q(x), (p(x), q(x))
""", "two inclinations that agree to eight digits, one after the other", "the separatrix of the second is that of the first")

seed("c22-phases-ignored", "C22", [("orbit.py", """        t, r, theta, phi = self.trajectory(initial_phases)

        def u_t(mino_time):""", """        t, r, theta, phi = self.trajectory()

        def u_t(mino_time):""")], """
o = kg.StableOrbit(.9, 8, .3, .6)
u, v = o.numerical_four_velocity(1e-4, (0, 1, 2, 0)), o.four_velocity((0, 1, 2, 0))
for f, g in zip(u, v):
    assert abs(f(.4) - g(.4)) < 1e-6
""", "explicit phases other than the orbit's own", "the numerical four-velocity is that of the orbit's own phases")

seed("c21-roll-over", "C21", [("orbit.py", "            (normal_component >= 0)", "            (normal_component > -event_horizon)")], """
o = kg.StableOrbit(.9, 8, .3, .6)
assert not o.is_visible(np.array([[-1.3, .7, 0.]]), 0, 0)[0]
""", "a point just behind the plane through the hole, outside the horizon but projected inside the disk", "points just behind the hole are drawn")

seed("c14-falling-outwards", "C14", [("initial_conditions.py", "q_r0 = lambda_r0 * upsilon_r if dr0 > 0 else", "q_r0 = lambda_r0 * upsilon_r if dr0 > 1e-4 else")], """
w = kg.StableOrbit(.9, 300, .002, .6, initial_phases=(0, 1, 1, 0))
assert 1e-5 < w.initial_velocity[1] < 1e-4 and w.initial_position[1] - 300 / 1.002 > .1
o = kg.Orbit(.9, w.initial_position, w.initial_velocity)
assert abs(o.four_velocity()[1](0) - w.initial_velocity[1]) < 1e-7
""", "an outward radial velocity below 0.0001 away from the turning points (a wide, nearly circular orbit)", "slowly receding orbits are started on the infalling half")

seed("c04-nan", "C04", [("constants.py", "    if (0 <= a <= 1) and (0 <= e <= 1) and (-1 <= x <= 1):", "    if (0 <= a <= 1) and (0 <= e <= 1) and (x**2 <= 1 + 1e-6):")], """
for f in (lambda: kg.separatrix(.9, .3, 1 + 1e-7), lambda: kg.constants.constants_of_motion(.9, 9, .3, 1 + 1e-7), lambda: kg.separatrix(.9, .3, -1 - 1e-7)):
    try:
        f()
    except ValueError:
        continue
    raise SystemExit("accepted")
""", "an inclination cosine between 1 and 1.0000005", "inclinations outside [-1,1] are accepted")

seed("c09-polar-root-order", "C09", [("plunge.py", """    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
    polar_roots = Z.roots()
    if a == 0:
        polar_roots = [polar_roots[0], polar_roots[0]]

    upsilon_r, upsilon_theta, upsilon_phi, gamma""", """    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
    polar_roots = Z.roots()
    if a < 0.01:
        polar_roots = [polar_roots[0], polar_roots[0]]

    upsilon_r, upsilon_theta, upsilon_phi, gamma""")], """
from kerrgeopy.constants import plunging_radial_roots
a, E, L, Q = .005, 0.9541705333504363, 2.072200216917526, 8.93657634757059
assert not np.iscomplex(plunging_radial_roots(a, E, L, Q)).any()
o = kg.PlungingOrbit(a, E, L, Q)
t, r, th, ph = o.trajectory((0, .3, .4, 0))
for l in (.2, .5):
    d = (th(l + 1e-4) - th(l - 1e-4)) / 2e-4
    z = cos(th(l))**2
    Z = Q - (Q + a*a*(1 - E*E) + L*L) * z + a*a*(1 - E*E) * z*z
    assert abs((sin(th(l)) * d)**2 - Z) < 1e-6 * Q, (d, Z)
""", "a plunge with four real roots around a hole of spin below 0.01", "the polar motion and the averages of slowly spinning holes use the same root twice")


import ast


def at(file, func, old, new, nth=0):
    """an edit inside one function"""
    src = open("/repo/kerrgeopy/" + file).read()
    n = [n for n in ast.walk(ast.parse(src)) if isinstance(n, ast.FunctionDef) and n.name == func][nth]
    body = "\n".join(src.split("\n")[n.lineno - 1:n.end_lineno])
    assert body.count(old) == 1, (func, old, body.count(old))
    return (file, body, body.replace(old, new))


# ------------------------------------------------------------------ second batch
seed("c01-polar-window", "C01", [at("constants.py", "angular_momentum", "    if x == 0:", "    if abs(x) < 1e-3:")], """
for x in (5e-4, -5e-4):
    E, L, Q = kg.constants_of_motion(.9, 9, .3, x)
    assert L * x > 0
""", "an inclination with 0 < |x| < 0.001", "nearly polar orbits get no angular momentum")

seed("c02-small-carter", "C02", [at("constants.py", "stable_radial_roots", "    AB = a**2 * Q / (r1 * r2 * (1 - E**2))", "    AB = a**2 * Q / (r1 * r2 * (1 - E**2)) if a**2 * Q > 1e-3 else 0")], """
a, p, e, x = .9, 8, .3, .99999
r = kg.stable_radial_roots(a, p, e, x) if hasattr(kg, "stable_radial_roots") else __import__("kerrgeopy.constants", fromlist=["x"]).stable_radial_roots(a, p, e, x)
E, L, Q = kg.constants_of_motion(a, p, e, x)
assert 0 < Q and abs(r[0] * r[1] * r[2] * r[3] * (1 - E**2) / (a**2 * Q) - 1) < 1e-3
""", "a nearly equatorial inclined orbit (a^2 Q < 0.001)", "the innermost root is reported as zero")

seed("c03-drop-mu", "C03", [at("stable.py", "from_constants", "return cls(a, p, e, x, initial_phases, M, mu)", "return cls(a, p, e, x, initial_phases, M, M and mu and min(mu, M))")], """
o = kg.StableOrbit.from_constants(.9, *kg.constants_of_motion(.9, 8, .3, .6), M=10, mu=20)
assert o.mu == 20
""", "mu larger than M", "an orbit built from constants gets another mu")

seed("c04-unit-substring", "C04", [at("stable.py", "mino_frequencies", 'if units == "mks" or units == "cgs":', 'if units in "mks/cgs":')], """
o = kg.StableOrbit(.9, 8, .3, .6, M=1e6, mu=10)
for u in ("s", "", "gs"):
    try:
        o.mino_frequencies(u)
    except ValueError:
        continue
    raise SystemExit(1)
""", "a unit name that is a substring of the known names", "unknown units are accepted")

seed("c04-marginal-theta", "C04", [at("frequencies.py", "theta_frequency", "    if e == 1:", "    if e == 1 and a != 0:")], """
from kerrgeopy.frequencies import theta_frequency
try:
    theta_frequency(0, 9, 1, .5)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""", "a marginally bound orbit (e=1) of a Schwarzschild black hole", "a frequency is returned for e=1")

seed("c05-boundary", "C05", [at("constants.py", "is_stable", "p > separatrix(a, e, x)", "p >= separatrix(a, e, x)")], """
p = kg.separatrix(.9, .3, .6)
assert not kg.is_stable(.9, p, .3, .6)
""", "p exactly equal to the separatrix", "the separatrix itself counts as stable")

seed("c06-gamma-check", "C06", [at("frequencies.py", "gamma", "    a, x = _standardize_params(a, x)", "    a = abs(a)")], """
from kerrgeopy.frequencies import gamma
assert abs(gamma(-.9, 4, .1, -1) - gamma(.9, 4, .1, 1)) < 1e-9
""", "a negative spin and p between the separatrices of the two directions", "gamma rejects or changes orbits given with negative spin")

seed("c07-slow-spin-phi", "C07", [at("frequencies.py", "phi_frequency", "    if a == 0:", "    if a < 1e-3:")], """
from kerrgeopy.frequencies import phi_frequency
from scipy.integrate import quad
u = phi_frequency(5e-4, 8, .3, .6)
v = (phi_frequency(2e-3, 8, .3, .6) - phi_frequency(0, 8, .3, .6)) / 2e-3
assert abs(v) < 1e-9 or abs(u - phi_frequency(0, 8, .3, .6) - 5e-4 * v) < 1e-5
""", "a nonzero spin below 0.001", "frame dragging missing from the azimuthal frequency of slowly spinning black holes")

seed("c08-wide", "C08", [at("stable.py", "radial_solutions", """            -2
            * a
            / ((r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4)))""", """            -2
            * a
            / ((r_plus - r_minus) * sqrt(max(1 - E**2, 1e-3) * (r1 - r3) * (r2 - r4)))""")], """
a = .9
f = kg.StableOrbit(a, 2000, .3, .6)
t, r, th, ph = f.trajectory()
h = 1e-4
c = lambda g, l: (g(l - 2*h) - 8*g(l - h) + 8*g(l + h) - g(l + 2*h)) / (12*h)
l = .01
rr, c2 = r(l), cos(th(l))**2
d = rr*rr - 2*rr + a*a
want = a/d*(f.E*(rr*rr + a*a) - a*f.L) + f.L/(1 - c2) - a*f.E
assert abs(c(ph, l) - want) < 1e-6, (c(ph, l), want)
""", "an orbit with 1-E^2 below 0.001", "the radial part of the azimuth is too small")

seed("c11-delta-phase", "C11", [at("stable.py", "trajectory_deltas", "lambda q_theta: phi_theta(q_theta + q_theta0)", "lambda q_theta: phi_theta(q_theta + q_r0)")], """
o = kg.StableOrbit(.9, 8, .3, .6)
d = o.trajectory_deltas((0, .5, 1.5, 0))
e = o.trajectory_deltas((0, 1.5, 1.5, 0))
assert abs(d[3](.2) - e[3](.2)) < 1e-9
""", "trajectory deltas with different radial and polar phases", "the polar part of the azimuthal delta is taken at the radial phase")

seed("c12-half-by-zero-phase", "C12", [at("spacetime.py", "four_velocity", "q_r = upsilon_r * time + q_r0", "q_r = upsilon_r * time + q_r0 % pi")], """
o = kg.StableOrbit(.9, 8, .3, .6, initial_phases=(0, 4, 0, 0))
h = 1e-5
r = o.trajectory()[1]
assert (r(h) - r(-h)) * o.four_velocity()[1](0) > 0
""", "an initial radial phase beyond pi", "the radial velocity has the wrong sign")

seed("c13-unbound", "C13", [at("initial_conditions.py", "constants_from_initial_conditions", "a**2 * (1 - E**2)", "a**2 * max(1 - E**2, 0)")], """
import kerrgeopy.initial_conditions as I
E, L, Q = I.constants_from_initial_conditions(.9, (0, 10, 1.0, 0), (3., 0.1, 0.1, .02))
s = 100 + .81 * cos(1)**2
assert abs(Q - ((s * .1)**2 + cos(1)**2 * (.81 * (1 - E**2) + L**2 / sin(1)**2))) < 1e-8
""", "a velocity with energy above 1", "the Carter constant of unbound motion is wrong")

seed("c14-wide-snap", "C14", [at("initial_conditions.py", "stable_orbit_initial_phases", "    elif abs(r0 - r1) < tol:", "    elif abs(r0 - r1) < tol * r1:")], """
w = kg.StableOrbit(.9, 80, .6, .6, initial_phases=(0, pi - 8e-3, 1, 0))
o = kg.Orbit(.9, w.initial_position, w.initial_velocity)
assert abs(o.initial_phases[1] - (pi - 8e-3)) < 1e-4
""", "a position within 0.01% of the outer turning radius of a wide orbit", "the position is snapped to the turning point")

seed("c14-theta-dead-zone", "C14", [at("initial_conditions.py", "stable_orbit_initial_phases", "        if dtheta0 < 0:", "        if dtheta0 < -1e-4:")], """
w = kg.StableOrbit(.9, 300, .3, .99, initial_phases=(0, 1, 4, 0))
assert -1e-4 < w.initial_velocity[2] < 0
o = kg.Orbit(.9, w.initial_position, w.initial_velocity)
assert o.four_velocity()[2](0) < 0
""", "a slow polar velocity towards the pole", "the orbit starts on the wrong polar half")

seed("c15-near-horizon", "C15", [at("spacetime.py", "__init__", "self.inner_horizon = 1 - sqrt(1 - self.a**2)", "self.inner_horizon = min(1 - sqrt(1 - self.a**2), 0.9)")], """
s = kg.KerrSpacetime(.999)
assert abs(s.inner_horizon**2 - 2*s.inner_horizon + .999**2) < 1e-9
""", "a spin above 0.995", "inner horizon capped")

seed("c16-carter-cgs", "C16", [("units.py", "return carter_constant_in_mks(Q, M) * 1e14", "return carter_constant_in_mks(Q, M) * 1e7")], """
from kerrgeopy.units import *
assert abs(carter_constant_in_cgs(1, 1) / carter_constant_in_mks(1, 1) - 1e14) < 1
""", "a Carter constant in cgs units", "factor 1e7 missing")

seed("c17-one-sided", "C17", [at("orbit.py", "__init__", "if abs(initial_norm + 1) > 1e-6:", "if initial_norm + 1 > 1e-6:")], """
w = kg.StableOrbit(.9, 8, .3, .6, initial_phases=(0, 1, 1, 0))
try:
    kg.Orbit(.9, w.initial_position, tuple(1.01 * v for v in w.initial_velocity))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""", "a timelike velocity whose norm is below -1", "accepted without normalisation")

seed("c18-small-carter", "C18", [at("frequencies.py", "plunging_mino_frequencies", "        k_theta = a * sqrt(1 - E**2) * z1 / z2", "        k_theta = a * sqrt(1 - E**2) * z1 / z2 if Q > 1 else 0")], """
from kerrgeopy.frequencies import plunging_mino_frequencies
from scipy.special import ellipk
a, E, L, Q = .98, .6, .3, .6
b = a*a*(1 - E*E)
s = 1 + (L*L + Q)/b
zm, zp = (s - sqrt(s*s - 4*Q/b))/2, (s + sqrt(s*s - 4*Q/b))/2
k = kg.constants.plunging_radial_roots(a, E, L, Q)
assert np.iscomplex(k[3])
assert abs(plunging_mino_frequencies(a, E, L, Q)[1] - pi/2*sqrt(b*zp)/ellipk(zm/zp)) < 1e-9
""", "a plunge with complex roots and 0 < Q < 1", "the modulus is dropped from the polar frequency")

seed("c19-negative-parameter", "C19", [at("frequencies.py", "_ellipeinc", "num_cycles * ellipe(m) + integral,", "num_cycles * ellipe(abs(m)) + integral,")], """
from kerrgeopy.frequencies import _ellipeinc
from scipy.special import ellipeinc
assert abs(_ellipeinc(3.7, -.5) - ellipeinc(3.7, -.5)) < 1e-6
""", "a negative parameter", "the sign of the parameter is lost")

seed("c20-phase-list", "C20", [at("plunge.py", "_complex_plunge_trajectory", "    q_theta0 = q_theta0 + pi / 2", "    if isinstance(initial_phases, list):\n        initial_phases[2] += pi / 2\n    q_theta0 = q_theta0 + pi / 2")], """
p = [0, .1, .2, 0]
o = kg.PlungingOrbit(.9, .94, .1, 12)
from kerrgeopy.plunge import plunging_trajectory
plunging_trajectory(.9, .94, .1, 12, p)
plunging_trajectory(.9, .94, .1, 2, p)
assert p == [0, .1, .2, 0]
""", "initial phases given as a list", "the caller's list is changed")
SEEDS.pop()

seed("c21-density", "C21", [at("orbit.py", "plot", "lambda_range = lambda1 - lambda0", "lambda_range = lambda1 - max(lambda0, 0)")], """
import matplotlib; matplotlib.use("Agg")
o = kg.StableOrbit(.9, 8, .3, .6)
n = []
old = np.linspace
import kerrgeopy.orbit as K
fig, ax = o.plot(-1, 1, point_density=30)
assert sum(len(c._segments3d) for c in ax.collections if hasattr(c, "_segments3d")) == 59
""", "a plot that starts at a negative Mino time", "fewer points than the requested density")

seed("c21-mean-depth", "C21", [at("orbit.py", "is_visible", "(normal_component >= 0)", "(normal_component - (1e-2 * normal_component.mean() if len(points) > 3 else 0) >= 0)")], """
o = kg.StableOrbit(.9, 8, .3, .6)
p = np.array([[.001, 1.0, 0.5], [9., 0, 0], [9., 1, 0], [9., 0, 1], [8., 0, 1]])
p[0] = [.05, 1 + sqrt(.19) - 1e-4, 0]
assert np.linalg.norm(p[0]) > 1 + sqrt(.19)
v = o.is_visible(p, 0, 0)
assert v[0]
""", "more than three points, one next to the plane through the hole", "visibility depends on the other points")

seed("c22-coarse-step", "C22", [at("orbit.py", "numerical_four_velocity", """        def u_phi(mino_time):""", """        if dx > 0.05:
            phi_fine = phi
            phi = lambda s: phi_fine(np.round(s, 12))

        def u_phi(mino_time):""")], "", "", "")
SEEDS.pop()

seed("c22-norm-step", "C22", [at("orbit.py", "_numerical_four_velocity_norm", "dx=dx, initial_phases=initial_phases", "dx=min(dx, 1e-3), initial_phases=initial_phases")], """
o = kg.StableOrbit(.9, 8, .3, .6)
n = o._numerical_four_velocity_norm(dx=.1)
u = [f(.4) for f in o.numerical_four_velocity(.1)]
x = [f(.4) for f in o.trajectory()]
assert abs(n(.4) - kg.KerrSpacetime(.9).norm(*x, u)) < 1e-9
""", "a step above 0.001", "the norm helper uses another step")

seed("c22-stencil", "C22", [at("orbit.py", "numerical_four_velocity", "8 * theta(mino_time + dx)", "(8 - (dx > 0.01) * 1e-3) * theta(mino_time + dx)")], """
o = kg.StableOrbit(.9, 8, .3, .6)
u, v = o.numerical_four_velocity(.011), o.four_velocity()
assert abs(u[2](.4) - v[2](.4)) < 1e-5
""", "a step above 0.01", "wrong coefficient in the polar difference")

# ------------------------------------------------------------------ third batch
seed("c01-slow-retrograde", "C01", [at("constants.py", "energy", "            - sign(x)", "            - sign(x if abs(a * x) > 1e-3 else 1)")], """
from kerrgeopy.constants import plunging_radial_roots
a, p, e, x = .002, 9, .3, -.4
E, L, Q = kg.constants_of_motion(a, p, e, x)
R = lambda r: (E*(r*r + a*a) - a*L)**2 - (r*r - 2*r + a*a)*(r*r + (L - a*E)**2 + Q)
assert abs(R(p/(1+e))) < 1e-6 * 9**4 * 1e-3, R(p/(1+e))
""", "a retrograde orbit around a very slowly spinning hole", "the energy is the one of the prograde orbit")

seed("c02-tiny-spin", "C02", [at("constants.py", "stable_polar_roots", "    z_plus = nan if a == 0 else", "    z_plus = nan if abs(a) < 1e-3 else")], """
from kerrgeopy.constants import stable_polar_roots
a, p, e, x = 5e-4, 9, .3, .4
E, L, Q = kg.constants_of_motion(a, p, e, x)
zm, zp = stable_polar_roots(a, p, e, x)
assert abs(zm * zp * a**2 * (1 - E**2) / Q - 1) < 1e-6
""", "a spin between 0 and 0.001", "the outer polar root is nan")

seed("c06-circular-flip", "C06", [at("constants.py", "_standardize_params", "return abs(a), x * copysign(1, a)", "return abs(a), x * copysign(1, a) if a < -1e-6 or a >= 0 else x")], """
a = -9e-7
E, L, Q = kg.constants_of_motion(a, 9, .3, .4)
E2, L2, Q2 = kg.constants_of_motion(-a, 9, .3, -.4)
assert abs(L - L2) < 1e-9
""", "a negative spin between -1e-6 and 0", "the inclination is not reversed")

seed("c06-object-phases", "C06", [at("stable.py", "__init__", "        a, x = _standardize_params(a, x)", "        if a < 0:\n            initial_phases = tuple(initial_phases[:3]) + (initial_phases[3] % (2 * pi),)\n        a, x = _standardize_params(a, x) if a < 0 else (a, x)")], """
o, w = (kg.StableOrbit(s*.9, 9, .3, s*.4, (0, .1, .2, -1)) for s in (1, -1))
assert abs(o.trajectory()[3](.4) - w.trajectory()[3](.4)) < 1e-9
""", "negative spin with a negative azimuthal phase", "the azimuthal phase is wrapped")

seed("c07-equatorial-theta", "C07", [at("frequencies.py", "_theta_frequency_from_constants", "    k_theta = sqrt(z_minus / z_plus)", "    k_theta = sqrt(z_minus / z_plus) if z_minus > 1e-3 else 0")], """
from kerrgeopy.frequencies import _theta_frequency_from_constants, theta_frequency
from kerrgeopy.constants import stable_radial_roots, stable_polar_roots
a, p, e, x = .99, 3, .1, .9997
c = kg.constants_of_motion(a, p, e, x)
u = _theta_frequency_from_constants(a, c, stable_radial_roots(a, p, e, x), stable_polar_roots(a, p, e, x))
assert abs(u - theta_frequency(a, p, e, x)) < 1e-9, u - theta_frequency(a, p, e, x)
""", "a nearly equatorial orbit, frequency computed from constants", "the modulus is dropped")

seed("c07-high-e", "C07", [at("frequencies.py", "fundamental_frequencies", "return upsilon_r / Gamma, abs(upsilon_theta) / Gamma, upsilon_phi / Gamma", "return upsilon_r / Gamma, abs(upsilon_theta) / Gamma, upsilon_phi / (Gamma if e < 0.95 else Gamma - 4 * constants[0] * (1 - e) ** 2)")], """
f, m = kg.fundamental_frequencies(.9, 6, .97, .4), kg.mino_frequencies(.9, 6, .97, .4)
assert abs(f[2] - m[2] / m[3]) < 1e-12
""", "eccentricity above 0.95", "the azimuthal frequency is not the Mino frequency over Gamma")

seed("c08-late", "C08", [at("stable.py", "radial_solutions", "    def r(q_r):\n        # equation 27\n        u_r = ellipk(k_r**2) * q_r / pi", "    def r(q_r):\n        # equation 27\n        u_r = ellipk(k_r**2) * np.where(abs(q_r) < 1000, q_r, q_r % 6.2831853) / pi")], """
o = kg.StableOrbit(.9, 9, .6, .4)
t, r, th, ph = o.trajectory()
l = 4000 / o.upsilon_r
E, L, Q = o.E, o.L, o.Q
a = .9
h = 1e-4
d = (r(l - 2*h) - 8*r(l - h) + 8*r(l + h) - r(l + 2*h)) / (12*h)
q0 = 4000 % (2*pi)
assert abs(r(l) - r(q0 / o.upsilon_r)) < 1e-7
""", "more than 160 radial periods", "a truncated value of 2 pi is used to reduce the phase")

seed("c09-small-beta", "C09", [at("plunge.py", "_real_plunge_trajectory", "    polar_roots = Z.roots()", "    polar_roots = Z.roots() if a**2 * (1 - E**2) > 2e-6 else [Q / (Q + L**2), 1e9]")], """
import numpy as np
from kerrgeopy.plunge import plunging_trajectory
a, E, L, Q = .0076, .983, 3.92, 8.
from kerrgeopy.constants import plunging_radial_roots
assert not np.iscomplex(plunging_radial_roots(a, E, L, Q)).any()
t, r, th, ph = plunging_trajectory(a, E, L, Q)
Z = lambda z: Q*(1 - z) - (a*a*(1 - E*E)*(1 - z) + L*L)*z
h = 1e-3
for l in (.1, .4, .7):
    d = (th(l - 2*h) - 8*th(l - h) + 8*th(l + h) - th(l + 2*h)) / (12*h)
    z = cos(th(l))
    assert abs((sin(th(l))*d)**2 - Z(z*z)) < 6e-8, (sin(th(l))*d)**2 - Z(z*z)
""", "a small value of a^2 (1-E^2)", "polar roots are replaced by their limit")

seed("c10-retro-bounce", "C10", [at("plunge.py", "I_r_minus", "_ellippiinc(xi_r, 1 / D_minus**2, k_r**2)", "_ellippiinc(xi_r if L > -2 else abs(xi_r), 1 / D_minus**2, k_r**2)")], """
o = kg.PlungingOrbit(.9, .94, -2.5, 3)
t, r, th, ph = o.trajectory()
import numpy as np
from kerrgeopy.constants import plunging_radial_roots
assert np.iscomplex(plunging_radial_roots(.9, .94, -2.5, 3)).any()
h, l, a, E, L, Q = 1e-4, -.1, .9, .94, -2.5, 3
d = (ph(l - 2*h) - 8*ph(l - h) + 8*ph(l + h) - ph(l + 2*h)) / (12*h)
rr, c2 = r(l), cos(th(l))**2
D = rr*rr - 2*rr + a*a
want = a/D*(E*(rr*rr + a*a) - a*L) + L/(1 - c2) - a*E
assert abs(d - want) < 1e-5 * abs(want), (d, want)
""", "strongly retrograde plunge before the first periapsis (negative radial phase)", "phi and t have the wrong sign of one term")

seed("c10-small-split", "C10", [at("plunge.py", "plunging_radial_integrals", "    rho_i = np.imag(r4)", "    rho_i = np.imag(r4) if abs(np.imag(r4)) > 0.1 else 0.1 * np.sign(np.imag(r4))")], """
import numpy as np
from kerrgeopy.constants import plunging_radial_roots
a, E, Q = .9, .94, 3
for L in np.linspace(.1, 3, 20000):
    R = plunging_radial_roots(a, E, L, Q)
    if np.iscomplex(R).any() and abs(np.imag(R[3])) < .05:
        break
o = kg.PlungingOrbit(a, E, L, Q)
t, r, th, ph = o.trajectory()
h, l = 1e-4, .1
d = (t(l - 2*h) - 8*t(l - h) + 8*t(l + h) - t(l + 2*h)) / (12*h)
rr, c2 = r(l), cos(th(l))**2
D = rr*rr - 2*rr + a*a
want = (rr*rr + a*a)/D*(E*(rr*rr + a*a) - a*L) - a*a*E*(1 - c2) + a*L
assert abs(d - want) < 1e-4 * abs(want), (d, want)
""", "complex roots with an imaginary part below 0.1", "the imaginary part is rounded up")

seed("c11-plunge-list", "C11", [at("orbit.py", "trajectory_deltas", "        if initial_phases is None:\n            initial_phases = self.initial_phases", "        if initial_phases is None or len(set(initial_phases)) == 1 and initial_phases[0] < 0:\n            initial_phases = self.initial_phases")], """
w = kg.StableOrbit(.9, 9, .3, .4, (0, 1, 1, 0))
o = kg.Orbit(.9, w.initial_position, w.initial_velocity)
d = o.trajectory_deltas((-.5, -.5, -.5, -.5))
e = kg.StableOrbit(.9, 9, .3, .4).trajectory_deltas((-.5, -.5, -.5, -.5))
assert abs(d[0](.7) - e[0](.7)) < 1e-6
""", "four equal negative phases", "the given phases are ignored")

seed("c12-turning-velocity", "C12", [at("spacetime.py", "u_theta", "np.copysign(1, sin(q_theta))", "np.copysign(1, sin(q_theta * np.where(abs(q_theta) < 100, 1, -1)))")], """
o = kg.StableOrbit(.9, 9, .3, .4)
u = o.four_velocity()[2]
th = o.trajectory()[2]
l = 101.3 / o.upsilon_theta
h = 1e-4
assert (th(l + h) - th(l - h)) * u(l) > 0
""", "polar phases beyond 100", "the polar velocity has the wrong sign")

seed("c13-far", "C13", [at("initial_conditions.py", "constants_from_initial_conditions", "    delta = r0**2 - 2 * r0 + a**2", "    delta = r0**2 - 2 * r0 + (a**2 if r0 < 1e3 else 0)")], """
from kerrgeopy.initial_conditions import constants_from_initial_conditions as f
import numpy as np
a, r, th = .9, 2e3, 1.1
g = kg.KerrSpacetime(a).metric(0, r, th, 0)
u = np.array([1, .3, 1e-4, 1e-4])
E, L, Q = f(a, (0, r, th, 0), u)
assert abs(E + (g @ u)[0]) < 1e-10
""", "a radius above 1000", "the spin is dropped from Delta")

seed("c13-slow-polar", "C13", [at("initial_conditions.py", "constants_from_initial_conditions", "(sigma * dtheta0 * sin(theta0)) ** 2", "(sigma * (dtheta0 if abs(dtheta0) > 1e-5 else 0) * sin(theta0)) ** 2")], """
from kerrgeopy.initial_conditions import constants_from_initial_conditions as f
a, r, th = .9, 300., 1.1
import numpy as np
u = np.array([1.2, .3, 9e-6, 1e-3])
E, L, Q = f(a, (0, r, th, 0), u)
v = np.array([1.2, .3, 0., 1e-3])
Q0 = f(a, (0, r, th, 0), v)[2]
S = r*r + (a*cos(th))**2
assert abs(Q - Q0 - (S * 9e-6)**2) < 1e-6
""", "a polar velocity below 1e-5", "its contribution to Q is dropped")

seed("c14-phi-wrap", "C14", [at("initial_conditions.py", "stable_orbit_initial_phases", "    q_phi0 = phi0", "    q_phi0 = phi0 if abs(phi0) < 10 else phi0 % (2 * pi)")], """
w = kg.StableOrbit(.9, 9, .3, .4, (0, 1, 1, 20.))
o = kg.Orbit(.9, w.initial_position, w.initial_velocity)
assert abs(o.trajectory()[3](0) - 20) < 1e-6
""", "an azimuth beyond 10 radians", "the azimuth is wrapped")

seed("c14-moment", "C14", [at("initial_conditions.py", "plunging_orbit_initial_phases", "        q_t0 = t0", "        q_t0 = t0 if t0 >= 0 else 0")], """
w = kg.PlungingOrbit(.9, .94, .1, 12, (-3., 1, 1, 2.))
o = kg.Orbit(.9, w.initial_position, w.initial_velocity)
assert abs(o.trajectory()[0](0) + 3) < 1e-6
""", "a plunge starting at negative time", "the starting time is replaced by zero")

seed("c15-norm-list", "C15", [at("spacetime.py", "norm", "return np.dot(v, np.dot(self.metric(t, r, theta, phi), v))", "g = self.metric(t, r, theta, phi)\n        return np.dot(v, np.dot(g, v)) if r > 0 else np.dot(v, np.dot(np.abs(g), v))")], """
import numpy as np
s = kg.KerrSpacetime(.9)
g = s.metric(0, -3., 1, 0)
v = np.array([1., 0, 0, 1.])
assert abs(s.norm(0, -3., 1, 0, v) - v @ g @ v) < 1e-9
""", "a negative radius", "the norm uses absolute values")

seed("c16-gamma-small-mass", "C16", [at("stable.py", "mino_frequencies", "time2_in_seconds2(gamma, self.M)", "time2_in_seconds2(gamma, self.M) if self.M >= 1 else time_in_seconds(gamma, self.M)")], """
o, w = kg.StableOrbit(.9, 9, .3, .4, M=.5, mu=.1), kg.StableOrbit(.9, 9, .3, .4, M=1, mu=.1)
assert abs(w.mino_frequencies("mks")[3] / o.mino_frequencies("mks")[3] - 4) < 1e-9
""", "a primary lighter than one solar mass", "Gamma is converted with the wrong power of the mass")

seed("c18-complex-order", "C18", [at("constants.py", "plunging_radial_roots", "        r1, r2 = real_roots", "        r1, r2 = real_roots if abs(L) < 25 else real_roots[::-1]")], """
from kerrgeopy.constants import plunging_radial_roots
r = plunging_radial_roots(.9, .3, 26., 2.)
assert r[0].real < r[1].real
""", "an angular momentum above 25", "the two real roots are swapped")

seed("c18-z-fast", "C18", [at("frequencies.py", "plunging_mino_frequencies", "        upsilon_theta = pi / 2 * z2 / ellipk(k_theta**2)", "        upsilon_theta = pi / 2 * z2 / ellipk(k_theta**2 if k_theta < 0.6 else k_theta)")], """
from kerrgeopy.frequencies import plunging_mino_frequencies
from scipy.special import ellipk
a, E, L, Q = .99, .1, .05, .6
u = plunging_mino_frequencies(a, E, L, Q)[1]
b = a*a*(1 - E*E); s = Q + L*L + b
zm = (s - sqrt(s*s - 4*b*Q))/(2*b); zp = (s + sqrt(s*s - 4*b*Q))/(2*b)
assert sqrt(zm/zp) > .6
assert abs(u - pi/2*sqrt(b*zp)/ellipk(zm/zp)) < 1e-9
""", "a polar modulus above 0.6 (deeply bound plunge)", "modulus and parameter are confused")

seed("c19-large-n", "C19", [at("frequencies.py", "_ellippi", "1 / 3 * n * elliprj(0, 1 - m, 1, 1 - n)", "1 / 3 * n * elliprj(0, 1 - m, 1, 1 - max(n, -50))")], """
from kerrgeopy.frequencies import _ellippi
from scipy.integrate import quad
want = quad(lambda t: 1 / ((1 + 80 * sin(t)**2) * sqrt(1 - .3 * sin(t)**2)), 0, pi / 2, epsabs=1e-12)[0]
assert abs(_ellippi(-80., .3) - want) < 1e-9
""", "a characteristic below -50", "the characteristic is clipped")

seed("c19-array-first", "C19", [at("frequencies.py", "_ellippiinc", "num_cycles % 2 == 0", "num_cycles % 2 == 0 if np.ndim(num_cycles) < 2 else num_cycles[0] % 2 == 0")], """
from kerrgeopy.frequencies import _ellippiinc
import numpy as np
p = np.array([[.3, 2.], [2., .3]])
assert np.allclose(_ellippiinc(p, .2, .3), [[_ellippiinc(float(x), .2, .3) for x in q] for q in p])
""", "a two-dimensional array of amplitudes", "the branch of the first row is used for all rows")

seed("c20-warm-start", "C20", [at("constants.py", "separatrix", "        p = root_scalar(_S, args=(a, e, x), bracket=[p_equatorial_prograde.root, p_polar.root])", "        lo, hi = p_equatorial_prograde.root, p_polar.root\n        g = separatrix.__dict__.get('last', lo)\n        if lo < g < hi and _S(lo, a, e, x) * _S(g, a, e, x) < 0:\n            hi = g\n        p = root_scalar(_S, args=(a, e, x), bracket=[lo, hi])\n        separatrix.last = p.root * (1 + 1e-6)")], """
a = kg.separatrix(.9, .3, .5)
for i in range(5):
    kg.separatrix(.9, .3, .5 - 1e-5 * i)
assert kg.separatrix(.9, .3, .5) == a
""", "repeated calls with similar parameters", "the bracket depends on the previous call, so the last digits of the result do")

seed("c21-far-camera", "C21", [at("orbit.py", "is_visible", "elevation_rad = elevation * pi / 180", "elevation_rad = min(elevation, 90) * pi / 180")], """
o = kg.StableOrbit(.9, 8, .3, .6)
p = np.array([[-5., 0, 1.], [5., 0, .2], [-5, 0, .2]])
assert list(o.is_visible(p, 180, 0)) == list(o.is_visible(p, 0, 180))
""", "an elevation above 90 degrees", "the elevation is clipped")

seed("c21-short", "C21", [at("orbit.py", "plot", "time = np.linspace(lambda0, lambda1, num_pts)", "time = np.linspace(lambda0, lambda1, num_pts, endpoint=num_pts < 5000)")], """
import matplotlib; matplotlib.use("Agg")
o = kg.StableOrbit(.9, 8, .3, .6)
fig, ax = o.plot(0, 2, point_density=2500)
r, th, ph = (f(2.) for f in o.trajectory()[1:])
s = [c for c in ax.collections if type(c).__name__ == "Path3DCollection"][0]._offsets3d
assert abs(s[0][0] - r*sin(th)*cos(ph)) < 1e-9
""", "a plot with at least 5000 samples", "the last point is left out")

seed("c22-phi-wrap", "C22", [at("orbit.py", "numerical_four_velocity", "-phi(mino_time + 2 * dx)", "-np.where(np.asarray(mino_time) > -5, phi(mino_time + 2 * dx), phi(mino_time + 2 * dx) % (2 * pi))")], """
o = kg.StableOrbit(.9, 8, .3, .6)
u, v = o.numerical_four_velocity(1e-3), o.four_velocity()
assert abs(u[3](-6.) - v[3](-6.)) < 1e-6
""", "Mino times below -5", "one sample of phi is wrapped")

seed("c08-long-array", "C08", [at("stable.py", "stable_trajectory", "            r_phases(upsilon_r * mino_time + q_r0), \n", "            r_phases(upsilon_r * mino_time + q_r0) if np.size(mino_time) <= 1000 else np.interp(mino_time, np.linspace(np.min(mino_time), np.max(mino_time), 1000), r_phases(upsilon_r * np.linspace(np.min(mino_time), np.max(mino_time), 1000) + q_r0)), \n")], """
r = kg.stable.stable_trajectory(.9, 8, .3, .6)[1]
l = np.linspace(0, 40, 1500)
assert abs(r(l)[700] - r(l[700])) < 1e-8
""", "more than a thousand Mino times at once", "the radius is interpolated")

seed("c20-int-times", "C20", [at("stable.py", "stable_trajectory", "            + upsilon_phi * mino_time\n", "            + np.multiply(upsilon_phi, mino_time, dtype=np.asarray(mino_time).dtype if np.ndim(mino_time) else None, casting='unsafe')\n")], """
ph = kg.stable.stable_trajectory(.9, 8, .3, .6)[3]
assert abs(ph(np.array([1, 2, 3]))[1] - ph(2.0)) < 1e-9
""", "an integer array of Mino times", "the secular part of phi is truncated to integers")

seed("c10-unwrap", "C10", [at("plunge.py", "_complex_plunge_trajectory", "            phi_r(upsilon_r * mino_time + q_r0)\n            + phi_theta", "            (np.unwrap(phi_r(upsilon_r * mino_time + q_r0)) if np.size(mino_time) > 400 else phi_r(upsilon_r * mino_time + q_r0))\n            + phi_theta")], """
ph = kg.plunge.plunging_trajectory(.9, .94, .5, 12.)[3]
l = np.random.default_rng(1).uniform(-3, 3, 900)
assert abs(ph(l)[800] - ph(l[800])) < 1e-8
""", "a long array of Mino times that is not closely sampled in order", "phi differs by multiples of 2 pi from the value at each time alone")

seed("c20-shared-output", "C20", [at("stable.py", "radial_solutions", "        return (r3 * (r1 - r2) * sn**2 - r2 * (r1 - r3)) / ((r1 - r2) * sn**2 - (r1 - r3))", "        out = radial_solutions.__dict__.setdefault(np.shape(sn), np.empty(np.shape(sn))) if np.ndim(sn) == 2 else None\n        return np.divide(r3 * (r1 - r2) * sn**2 - r2 * (r1 - r3), (r1 - r2) * sn**2 - (r1 - r3), out=out)")], """
r = kg.stable.stable_trajectory(.9, 8, .3, .6)[1]
x = np.array([[.1, .2], [.3, .4]])
a = r(x)
k = a.copy()
r(x + 1)
assert np.array_equal(a, k)
""", "two two-dimensional arrays of the same shape", "the second call overwrites the values returned by the first")

seed("c16-mass-or", "C16", [at("orbit.py", "constants_of_motion", "if self.M is None or self.mu is None:", "if self.M is None and self.mu is None:")], """
try:
    kg.StableOrbit(.9, 8, .3, .6, M=1e6).constants_of_motion("mks")
except ValueError:
    pass
""", "an orbit with M but without mu", "the conversion fails with TypeError instead of the documented ValueError")

seed("c16-one-unit", "C16", [at("plunge.py", "_real_plunge_trajectory", '''if ((distance_units != "natural") or (time_units != "natural")) and M is None:''', '''if (distance_units != "natural") and (time_units != "natural") and M is None:''')], """
try:
    kg.plunge.plunging_trajectory(.9, .94, 2., 6., distance_units="km")
    assert 0
except ValueError:
    pass
""", "one physical unit, no mass, a plunge with four real roots", "the request is accepted and fails later with TypeError")

seed("c21-body-late", "C21", [at("orbit.py", "animate", "                    [trajectory_z[j]],", "                    [trajectory_z[min(j, 1500)]],")], """
import matplotlib; matplotlib.use("Agg")
import matplotlib.animation as man
got = []
def save(self, *a, **k):
    self._func(200, *self._args)
    got.append(self._args[0]._offsets3d)
man.Animation.save = save
o = kg.StableOrbit(.9, 8, .3, .6)
o.animate("x.mp4", 0, 10)
r, th = (f(np.linspace(0, 10, 2400)[1600]) for f in o.trajectory()[1:3])
assert abs(got[0][2][0] - r * cos(th)) < 1e-8
""", "an animation longer than 1500 samples", "the body's height stays at sample 1500")

seed("c21-pan-time", "C21", [at("orbit.py", "animate", "                    elevation_pan(current_time)", "                    elevation_pan(current_time if lambda0 == 0 else time[i])")], """
import matplotlib; matplotlib.use("Agg")
import matplotlib.animation as man
got = []
def save(self, *a, **k):
    self._func(20, *self._args)
    got.append(self._fig.axes[0].elev)
man.Animation.save = save
o = kg.StableOrbit(.9, 8, .3, .6)
o.animate("x.mp4", .5, 2, elevation_pan=lambda t: 10 * t)
assert abs(got[0] - 10 * np.linspace(.5, 2, 360)[160]) < 1e-8, got
""", "a moving camera in an animation that does not start at Mino time zero", "the elevation is the one of an earlier time")

seed("c14-far-tol", "C14", [at("initial_conditions.py", "stable_orbit_initial_phases", "    if abs(r0 - r2) < tol:", "    if abs(r0 - r2) < tol * max(1, r2 / 30)**2:")], """
o = kg.StableOrbit(.9, 400, .2, .6, initial_phases=(0, .004, 1., 0))
b = kg.Orbit(.9, o.initial_position, o.initial_velocity)
assert abs(b.initial_phases[1] - .004) < 5e-4, b.initial_phases
""", "a wide orbit close to its periapsis", "the radial phase is snapped to zero")
