From 3c361dc9e39f1b580a53d8a3bb132ebb9a6b67b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 01/15] fix: scale_constants must not convert the mass scale to
 kilograms

constants_of_motion(units="mks"/"cgs") returned L and Q too large by one and
two factors of 1.98847e30 because the mass was converted twice.
---
 kerrgeopy/constants.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 46d018c..2b9d7bd 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -742,5 +742,4 @@ def scale_constants(constants, M, mu):
     -------
     tuple(double, double, double)
     """
-    M = mass_in_kg(M)
     return constants[0] * mu, constants[1] * mu * M, constants[2] * mu**2 * M**2
-- 
2.43.0


From 1681a97b6daad8a88e0c36c6326396b3b3600167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 02/15] fix: trajectory_deltas of plunges with four real roots
 used the radial roots as polar roots

polar_solutions was called with the four radial roots and raised ValueError.
---
 kerrgeopy/orbit.py  | 7 ++++++-
 kerrgeopy/plunge.py | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 52b68f6..1df240d 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -155,9 +155,14 @@ class Orbit:
                 from .stable import radial_solutions, polar_solutions
 
                 constants = (self.E, self.L, self.Q)
+                # polar polynomial written in terms of z = cos^2(theta)
+                beta = self.a**2 * (1 - self.E**2)
+                polar_roots = Polynomial(
+                    [self.Q, -(self.Q + beta + self.L**2), beta]
+                ).roots()
                 r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
                 theta, t_theta, phi_theta = polar_solutions(
-                    self.a, constants, radial_roots
+                    self.a, constants, polar_roots
                 )
 
         return (
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 5c1b693..0d045d1 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -108,8 +108,11 @@ class PlungingOrbit(Orbit):
             theta, t_theta, phi_theta = plunging_polar_solutions(self.a, self.E, self.L, self.Q)
         else:
             constants = (self.E, self.L, self.Q)
+            # polar polynomial written in terms of z = cos^2(theta)
+            beta = self.a**2 * (1 - self.E**2)
+            polar_roots = Polynomial([self.Q, -(self.Q + beta + self.L**2), beta]).roots()
             r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-            theta, t_theta, phi_theta = polar_solutions(self.a, constants, radial_roots)
+            theta, t_theta, phi_theta = polar_solutions(self.a, constants, polar_roots)
 
         return (
             lambda q_r: t_r(q_r + q_r0),
-- 
2.43.0


From d2d68eb08bc00d212f3e2fcca91f8a93bf7745bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 03/15] fix: is_visible compares the distance of each point
 with the event horizon

The norm of the whole point array was used, so points inside the horizon were
reported visible.
---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 1df240d..e54c095 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -590,7 +590,7 @@ class Orbit:
         return (
             (normal_component >= 0)
             | (np.linalg.norm(projection, axis=1) > event_horizon)
-        ) & (np.linalg.norm(points) > event_horizon)
+        ) & (np.linalg.norm(points, axis=1) > event_horizon)
 
     def animate(
         self,
-- 
2.43.0


From 6b5244e076f62555eff6109130411519e4891b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 04/15] fix: radial frequency in _phi_frequency_from_constants
 and _gamma_from_constants

The optional upsilon_r branch passed three arguments to a two-argument function.
---
 kerrgeopy/frequencies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 9ecc96d..b5e7bef 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -630,7 +630,7 @@ def _phi_frequency_from_constants(
 
     # compute frequencies if they are not passed in
     if upsilon_r is None:
-        upsilon_r = _r_frequency_from_constants(a, constants, radial_roots)
+        upsilon_r = _r_frequency_from_constants(constants, radial_roots)
     if upsilon_theta is None:
         upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
 
@@ -710,7 +710,7 @@ def _gamma_from_constants(
 
     # compute frequencies if they are not passed in
     if upsilon_r is None:
-        upsilon_r = _r_frequency_from_constants(a, constants, radial_roots)
+        upsilon_r = _r_frequency_from_constants(constants, radial_roots)
     if upsilon_theta is None:
         upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
 
-- 
2.43.0


From 2186631264c97b795f6d2e64b565db56714b7f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 05/15] fix: stable_trajectory with negative spin

The constants and frequencies use the standardized (a, x) but the radial and
polar solutions used the raw ones, so the result was not a geodesic.
---
 kerrgeopy/stable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 4aa7ce3..73486b7 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -500,6 +500,7 @@ def stable_trajectory(
     if ((distance_units != "natural") or (time_units != "natural")) and M is None:
         raise ValueError("M must be specified to convert to physical units")
 
+    a, x = _standardize_params(a, x)
     upsilon_r, upsilon_theta, upsilon_phi, gamma = mino_frequencies(a, p, e, x)
     constants = constants_of_motion(a, p, e, x)
     radial_roots = stable_radial_roots(a, p, e, x, constants)
-- 
2.43.0


From 399595a433ec870b08b154c4cbbbab53cdd08140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 06/15] fix: initial phase of equatorial orbits built from
 initial conditions

The special case for equatorial orbits was always overwritten by the next
branch (and needed an exactly zero polar velocity), giving q_theta0 = nan for
equatorial plunges.
---
 kerrgeopy/initial_conditions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 946ac94..dbae615 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -255,9 +255,9 @@ def stable_orbit_initial_phases(
         # Fujita and Hikida equation 36
         if dtheta0 < 0:
             q_theta0 = lambda_theta0 * upsilon_theta + 3 * pi / 2
-        if (dtheta0 == 0) & (theta0 == pi / 2):
+        elif (dtheta0 == 0) & (theta0 == pi / 2):
             q_theta0 = 0  # special case for equatorial orbits
-        if dtheta0 >= 0:
+        else:
             q_theta0 = pi / 2 - lambda_theta0 * upsilon_theta
 
     q_t0 = t0
@@ -355,18 +355,19 @@ def plunging_orbit_initial_phases(
             )
         )
         # derived by inverting equation 29
-        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(cos(theta0) / z1), k_theta**2)
+        y_theta = 0 if z1 == 0 else cos(theta0) / z1
+        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(y_theta), k_theta**2)
 
         upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
 
         q_t0 = t0
         q_r0 = -lambda_r0 * upsilon_r if dr0 > 0 else 2 * pi + lambda_r0 * upsilon_r
 
-        if dtheta0 < 0:
-            q_theta0 = lambda_theta0 * upsilon_theta + 3 * pi / 2
-        if (dtheta0 == 0) & (theta0 == pi / 2):
+        if z1 == 0:
             q_theta0 = 0  # special case for equatorial orbits
-        if dtheta0 >= 0:
+        elif dtheta0 < 0:
+            q_theta0 = lambda_theta0 * upsilon_theta + 3 * pi / 2
+        else:
             q_theta0 = pi / 2 - lambda_theta0 * upsilon_theta
 
         q_phi0 = phi0
-- 
2.43.0


From c4824a1b06302e605ef7b9b2443f05ebb663fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 07/15] fix: polar initial phase in Schwarzschild and for
 retrograde orbits

For a = 0 the polar modulus is 0 (not 1) and the polar frequency needs the
radial roots in decreasing order; the sign of L must not enter the polar phase
when the polar frequency is positive (a = 0, or passed in).
---
 kerrgeopy/initial_conditions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index dbae615..02c5af7 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -201,6 +201,7 @@ def stable_orbit_initial_phases(
         radial_roots = R.roots()
         # numpy returns roots in increasing order
         r4, r3, r2, r1 = radial_roots
+        radial_roots = r1, r2, r3, r4
     else:
         r1, r2, r3, r4 = radial_roots
 
@@ -245,12 +246,13 @@ def stable_orbit_initial_phases(
                 a, constants, radial_roots, polar_roots
             )
 
-        k_theta = sqrt(z_minus / z_plus)
+        k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
         y_theta = cos(theta0) / sqrt(z_minus)
         e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
         # Fujita and Hikida equation 37
-        lambda_theta0 = 1 / (L * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        lambda_theta0 = 1 / (abs(L) * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        upsilon_theta = abs(upsilon_theta)
 
         # Fujita and Hikida equation 36
         if dtheta0 < 0:
-- 
2.43.0


From 1aea9356804609c97464acb217f7673b0f066fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 08/15] fix: time dilation factor of equatorial plunging orbits
 is finite

_gamma_from_constants detected the marginally bound case from the ratio of the
radial roots, which is also 1 for equatorial plunging orbits (r2 = 0), so their
coordinate time was infinite. Test the energy instead.
---
 kerrgeopy/frequencies.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index b5e7bef..267dbbb 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -693,13 +693,12 @@ def _gamma_from_constants(
     r1, r2, r3, r4 = radial_roots
     z_minus, z_plus = polar_roots
 
-    e = (r1 - r2) / (r1 + r2)
+    E, L, Q = constants
+
     # marginally bound case
-    if e == 1:
+    if E == 1:
         return inf
 
-    E, L, Q = constants
-
     epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-- 
2.43.0


From 0844cde310ae2433e8ebca351c87d096768a71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 09/15] fix: phi and theta of polar plunging orbits are not nan

With L = 0 the third-kind integral in phi_theta diverges at the poles and was
multiplied by zero, and rounding could make z1 slightly larger than 1.
---
 kerrgeopy/plunge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 0d045d1..f96615f 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -444,6 +444,8 @@ def plunging_polar_solutions(a, E, L, Q):
             )
         )
     )
+    # rounding can push z1 above 1 for polar orbits
+    z1 = min(z1, 1)
     k_theta = a * sqrt(1 - E**2) * z1 / z2
 
     upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
@@ -473,6 +475,9 @@ def plunging_polar_solutions(a, E, L, Q):
         mino_time = q_theta / upsilon_theta
         # equation 28
         sn, cn, dn, xi_theta = ellipj(z2 * mino_time, k_theta**2)
+        # the integral diverges at the poles but does not contribute to polar orbits
+        if L == 0:
+            return 0 * mino_time
         # equation 31
         return L / z2 * _ellippiinc(xi_theta, z1**2, k_theta**2)
 
-- 
2.43.0


From cc1ea510b6865be2dc5decb062338492869ef455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 10/15] fix: initial phases of plunging orbits starting at a
 turning point are not nan

---
 kerrgeopy/initial_conditions.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 02c5af7..29dfb9a 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -348,16 +348,11 @@ def plunging_orbit_initial_phases(
         B = sqrt((r1 - rho_r) ** 2 + rho_i**2)
         k_r = sqrt(((r2 - r1) ** 2 - (A - B) ** 2) / (4 * A * B))
         # equation 49
-        lambda_r0 = (
-            -1
-            / sqrt((1 - E**2) * A * B)
-            * ellipkinc(
-                pi / 2 - arcsin((B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1))),
-                k_r**2,
-            )
-        )
+        # rounding can put y_r and y_theta slightly outside [-1,1] at a turning point
+        y_r = np.clip((B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1)), -1, 1)
+        lambda_r0 = -1 / sqrt((1 - E**2) * A * B) * ellipkinc(pi / 2 - arcsin(y_r), k_r**2)
         # derived by inverting equation 29
-        y_theta = 0 if z1 == 0 else cos(theta0) / z1
+        y_theta = 0 if z1 == 0 else np.clip(cos(theta0) / z1, -1, 1)
         lambda_theta0 = 1 / z2 * ellipkinc(arcsin(y_theta), k_theta**2)
 
         upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
-- 
2.43.0


From b525e4bc121722874e85a8f2be3250ef7cb42e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:50 +0000
Subject: [PATCH 11/15] fix: reject unbound initial conditions instead of
 building an orbit with NaN frequencies

---
 kerrgeopy/orbit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index e54c095..de29327 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -99,6 +99,8 @@ class Orbit:
         else:
             if a == 0:
                 raise ValueError("Schwarzschild plunges are not currently supported")
+            if abs(E) >= 1:
+                raise ValueError("Unbound orbits are not currently supported")
             self.stable = False
             self.upsilon_r, self.upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
             self.initial_phases = plunging_orbit_initial_phases(
-- 
2.43.0


From 3ff56b5dc65d7fa97cec813644dae63dbc2b733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:06 +0000
Subject: [PATCH 12/15] fix: polar Mino frequency of plunging orbits with L=0
 and four real roots

---
 kerrgeopy/frequencies.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 267dbbb..499307f 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -514,12 +514,19 @@ def plunging_mino_frequencies(a, E, L, Q):
         # polar polynomial written in terms of z = cos^2(theta)
         Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
         polar_roots = Z.roots()
+        constants = (E, L, Q)
+        upsilon_r = _r_frequency_from_constants(constants, radial_roots)
         if a == 0:
             polar_roots = [polar_roots[0], polar_roots[0]]
-        constants = (E, L, Q)
-        upsilon_r, upsilon_theta, upsilon_phi, gamma = _mino_frequencies_from_constants(
-            a, constants, radial_roots, polar_roots
-        )
+            upsilon_theta = abs(
+                _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
+            )
+        else:
+            # unlike the expression in terms of L, also defined for polar orbits
+            z_minus, z_plus = polar_roots
+            upsilon_theta = (
+                pi * sqrt(a**2 * (1 - E**2) * z_plus) / (2 * ellipk(z_minus / z_plus))
+            )
 
     return upsilon_r, upsilon_theta
 
-- 
2.43.0


From b6547d541e53e90cc6fd3d164c61a1de273740de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:58 +0000
Subject: [PATCH 13/15] fix: angular momentum of prograde orbits with a turning
 point on the ergosphere was nan (0/0)

---
 kerrgeopy/constants.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 2b9d7bd..235da08 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -341,14 +341,18 @@ def angular_momentum(a, p, e, x, E=None):
         r2 = p / (1 + e)
         f2, g2, h2, d2 = _coefficients(r2, a, x)
         # obtained by solving equation B.17 for L
-        return (-E * g2 + sign(x) * sqrt(-d2 * h2 + E**2 * (g2**2 + f2 * h2))) / h2
+        root = sqrt(-d2 * h2 + E**2 * (g2**2 + f2 * h2))
+        # multiplied by the conjugate for x > 0 since h2 vanishes at the ergosphere
+        return (E**2 * f2 - d2) / (E * g2 + root) if x > 0 else (-E * g2 - root) / h2
 
     # generic case
     else:
         r1 = p / (1 - e)
         f1, g1, h1, d1 = _coefficients(r1, a, x)
         # obtained by solving equation B.17 for L
-        return (-E * g1 + sign(x) * sqrt(-d1 * h1 + E**2 * (g1**2 + f1 * h1))) / h1
+        root = sqrt(-d1 * h1 + E**2 * (g1**2 + f1 * h1))
+        # multiplied by the conjugate for x > 0 since h1 vanishes at the ergosphere
+        return (E**2 * f1 - d1) / (E * g1 + root) if x > 0 else (-E * g1 - root) / h1
 
 
 def carter_constant(a, p, e, x, E=None, L=None):
-- 
2.43.0


From 47ad90de05e2e73421e590b76f7c8338d56f0c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:58 +0000
Subject: [PATCH 14/15] fix: energy of nearly circular orbits lost all digits
 to cancellation

---
 kerrgeopy/constants.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 235da08..986fc74 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -195,6 +195,36 @@ def _coefficients_derivative(r, a, x):
     return f_prime(r), g_prime(r), h_prime(r), d_prime(r)
 
 
+def _coefficients_difference(r1, r2, a, x):
+    """Computes the divided differences (f(r1)-f(r2))/(r1-r2) of the coefficients 
+    f, g, h and d, which remain accurate for nearly circular orbits 
+
+    Parameters
+    ----------
+    r1 : double
+        outer turning point
+    r2 : double
+        inner turning point
+    a : double
+        dimensionless spin of the black hole
+    x : double
+        cosine of the orbital inclination
+
+    Returns
+    -------
+    tuple(double, double, double, double)
+    """
+    z = sqrt(1 - x**2)
+    total = r1 + r2
+    squares = r1**2 + r2**2
+    f = total * squares + a**2 * ((1 + z**2) * total + 2 * (1 - z**2))
+    g = 2 * a
+    h = (total - 2) / (1 - z**2)
+    d = total * squares - 2 * (squares + r1 * r2) + a**2 * ((1 + z**2) * total - 2 * z**2)
+
+    return f, g, h, d
+
+
 def _standardize_params(a, x):
     """Changes signs of a and x so that a is positive 
     and x encodes the direction of the orbit.
@@ -274,8 +304,8 @@ def energy(a, p, e, x):
     else:
         r1 = p / (1 - e)
         r2 = p / (1 + e)
-        f1, g1, h1, d1 = _coefficients(r1, a, x)
-        f2, g2, h2, d2 = _coefficients(r2, a, x)
+        f1, g1, h1, d1 = _coefficients(r2, a, x)
+        f2, g2, h2, d2 = _coefficients_difference(r1, r2, a, x)
 
     # equation B.19 - B.21
     kappa = d1 * h2 - h1 * d2
-- 
2.43.0


From 2da397cb897e9a76c0596ef98fe890b12762caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:58 +0000
Subject: [PATCH 15/15] fix: energy of prograde orbits was wrong where the
 divisor rho^2 + 4 eta sigma vanishes

---
 kerrgeopy/constants.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 986fc74..40c878e 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -315,16 +315,13 @@ def energy(a, p, e, x):
     eta = f1 * g2 - g1 * f2
 
     # equation B.22
-    return sqrt(
-        (
-            kappa * rho
-            + 2 * epsilon * sigma
-            - sign(x)
-            * 2
-            * sqrt(sigma * (sigma * epsilon**2 + rho * epsilon * kappa - eta * kappa**2))
-        )
-        / (rho**2 + 4 * eta * sigma)
-    )
+    b = kappa * rho + 2 * epsilon * sigma
+    root = 2 * sqrt(sigma * (sigma * epsilon**2 + rho * epsilon * kappa - eta * kappa**2))
+    # multiplied by the conjugate if the terms cancel since b and root are equal 
+    # where rho^2 + 4*eta*sigma vanishes
+    if x > 0 and b > 0:
+        return sqrt(kappa**2 / (b + root))
+    return sqrt((b - sign(x) * root) / (rho**2 + 4 * eta * sigma))
 
 
 def angular_momentum(a, p, e, x, E=None):
-- 
2.43.0

