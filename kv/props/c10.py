"""C10 plunging trajectories with two complex roots"""
from .base import *
from .. import geo
from .c08 import D, cos2, A, EN, L, R1, R2, LAM, QT, QR, QTH, QPH, phases
from .c09 import sample, plunge_functions, plunge_motion_check

# r2-(rho+i eta) has modulus CA, r1-(rho+i eta) modulus CB
CA, CB, Z1 = var("A"), var("B"), var("z1")
RHO = ((R2**2 - R1**2) - (CA**2 - CB**2)) / (2 * (R2 - R1))
ETA = sqrt(CA**2 - (R2 - RHO) ** 2)
BETA = A**2 * (1 - EN**2)
W = BETA + L**2 / (1 - Z1**2)           # z2^2
Q = Z1**2 * W
ROOTS = (R1, R2, T.SymC(RHO.n, ETA.n), T.SymC(RHO.n, (-ETA).n))
FUNCS = ["plunging_trajectory", "_complex_plunge_trajectory", "plunging_radial_solutions_complex", "plunging_radial_integrals",
         "plunging_polar_solutions", "plunging_mino_frequencies"]
PRE = [lt(0, A), lt(A, 1), lt(0, EN), lt(EN, 1), lt(0, Z1), lt(Z1, 1), lt(0, CA), lt(0, CB), lt(R1, R2), lt(CA - CB, R2 - R1),
       lt(CB - CA, R2 - R1), lt(R2 - R1, CA + CB), lt(0, R1), lt(R1, 1 - sqrt(1 - A**2)), lt(1 + sqrt(1 - A**2), R2)]


def vc_sample(rng):
    q = sample(rng, "complex")
    if q is None or q[0][3] == 0:
        return None
    (a, E, Lz, Qv), o, im, M = q
    return dict(a=a, E=E, L=Lz, z1=math.sqrt(M.zm), r1=o[0], r2=o[1], A=abs(o[1] - im[0]), B=abs(o[0] - im[0]),
                lam=mino_time(rng, 2), qt0=rng.uniform(-5, 5), qr0=rng.uniform(-7, 7), qth0=rng.uniform(-7, 7), qphi0=rng.uniform(-5, 5))


def polar_sample(rng):
    s = vc_sample(rng)
    q = s and (s["a"], s["E"], 0.0, rng.uniform(0.5, 12))
    if not q or len(geo.roots4(*q)[0]) != 2 or geo.region(*q) is None:
        return None
    o, im = geo.roots4(*q)
    return dict(s, L=0.0, Q=q[3], r1=o[0], r2=o[1], A=abs(o[1] - im[0]), B=abs(o[0] - im[0]))


def concretize(s):
    b = s["a"] ** 2 * (1 - s["E"] ** 2)
    u = s["z1"] ** 2
    return dict(a=s["a"], E=s["E"], L=s["L"], Q=u * (b + s["L"] ** 2 / (1 - u)), lam=s.get("lam", 0.3),
                phases=[s.get(k, 0) for k in ("qt0", "qr0", "qth0", "qphi0")])


STUBS = {**ELL, "plunging_radial_roots": lambda *k, **kw: ROOTS}


def body(K, L=L, Q=Q, Z1=Z1):
    t, r, th, ph = K.plunge.plunging_trajectory(A, EN, L, Q, (QT, QR, QTH, QPH))
    t, r, th, ph = t(LAM), r(LAM), th(LAM), ph(LAM)
    z2 = cos2(th)
    dr = D(r)
    K.eq("(dr/dlambda)^2 = R(r)", dr * dr, (1 - EN**2) * (R2 - r) * (r - R1) * ((r - RHO) ** 2 + ETA**2))
    dz = D(fn("cos", th))
    k = spec.Z_coefficients(A, EN, L, Q)
    K.eq("(sin theta dtheta/dlambda)^2 = Z", dz * dz, k[0] + k[1] * z2 + k[2] * z2 * z2)
    K.eq("dphi/dlambda", D(ph), spec.dphi(A, EN, L, r, z2))
    K.eq("dt/dlambda", D(t), spec.dt(A, EN, L, r, z2))
    K.true("cos^2 theta <= z1^2", le(z2, Z1**2))
    K.true("r >= r1", le(R1, r))
    K.true("r <= r2", le(r, R2))


class C10(Prop):
    id = "C10"
    explanation = ("plunging_trajectory in the case of two complex roots is executed on symbolic constants (parametrised by the two real "
                   "roots, the distances of the complex pair to them, energy, L and polar turning point), phases and Mino time; the "
                   "derivatives of t, r, theta, phi are proved equal to the Kerr potentials for every time.")
    assumptions = ["plunging_radial_roots returns the roots of the radial potential in the documented order (C18)",
                   "the real-valued branch of log, arctan2 and the principal-value third-kind integral is continuous along the orbit "
                   "(monitored)"]
    monitor_seconds = 55

    def vcs(self, tier):
        return [VC("plunge, two complex roots", FUNCS, body, PRE, vc_sample, stubs=STUBS, concretize=concretize, nsamples=4,
                   min_obligations=6),
                VC("plunge through the poles, two complex roots", FUNCS, lambda K: body(K, S(0), var("Q"), S(1)),
                   PRE[:4] + PRE[6:] + [lt(BETA, var("Q"))], polar_sample, stubs=STUBS,
                   concretize=lambda s: dict(concretize(dict(s, L=0.0, z1=0.5)), L=0.0, Q=s["Q"]), nsamples=4, min_obligations=6)]

    def cases(self, rng, tier):
        for i in range(200 if tier == "quick" else 3000):
            q = sample(rng, "complex")
            if q is None:
                continue
            a, E, Lz, Qv = q[0]
            if i % 9 == 8:
                Lz = 0.0
                if geo.region(a, E, 0.0, Qv) is None or len(geo.roots4(a, E, 0.0, Qv)[0]) != 2 or Qv == 0:
                    continue
            yield dict(a=a, E=E, L=Lz, Q=Qv, phases=phases(rng, i), via=i % 4, lam=mino_time(rng))

    def check(self, inp):
        a, E, Lz, Qv = (float(inp[k]) for k in "aELQ")
        reg = geo.region(a, E, Lz, Qv)
        if reg is None:
            return []
        q = [float(v) for v in inp.get("phases") or (0, 0, 0, 0)]
        f = plunge_functions(a, E, Lz, Qv, q, inp.get("via", 0))
        M = geo.Motion(a, E, Lz, Qv, *reg, qr0=q[1], qth0=q[2])
        return plunge_motion_check(f, M, q, inp.get("lam")) or vectorized([("trajectory", f, 1e-9, 1e-8)], M, a, inp)


PROP = C10()
