From 1519ea246e70caee7be4719f19f795a3d83d4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:04 +0000
Subject: [PATCH 01/16] fix: finite maneuver consumes propellant instead of
 adding it

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index ab06592..e94690f 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -155,7 +155,7 @@ class Spacecraft:
             self.isp,
         )
         m_spec: float = self.m_dot / self.total_mass()
-        dt: float = (-1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
+        dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
 
     def sma(self) -> float:
-- 
2.43.0


From 10819f80a82cc51cd782778caab913b96798199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:05 +0000
Subject: [PATCH 02/16] fix: rotate the finite burn from RIC to GCRF, not from
 GCRF to RIC

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index e94690f..51823fc 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -147,7 +147,7 @@ class Spacecraft:
         :param dt: duration of the maneuver in days
         :type dt: float
         """
-        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).multiply_vector(ric_dv)
+        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).transpose().multiply_vector(ric_dv)
         self.propagator.maneuver(
             gcrf_thrust,
             self.m_dot,
-- 
2.43.0


From 5dbcee6df6ab21e1c4e5cbe8622a4d9284a00e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:06 +0000
Subject: [PATCH 03/16] fix: visual magnitude uses the radius and albedo of the
 observed target

---
 src/openspace/bodies/artificial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 51823fc..47bc010 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -351,7 +351,7 @@ class Spacecraft:
         :rtype: float
         """
         # Store the target's body radius
-        r: float = self.body_radius
+        r: float = target.body_radius
 
         # Calculate the range to the target
         dist: float = self.range(target)
@@ -360,7 +360,7 @@ class Spacecraft:
         phi: float = pi - self.sun_angle(target)
 
         # Calculate the flux and vismag
-        fdiff: float = (2 / 3) * self.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
+        fdiff: float = (2 / 3) * target.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
         return -26.74 - 2.5 * log10(fdiff)
 
     def sun_angle(self, target: "Spacecraft") -> float:
-- 
2.43.0


From f25d6d00efece4df5c0a669aefc355e392b79f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:06 +0000
Subject: [PATCH 04/16] fix: track_state follows a new target when another one
 is already tracked

---
 src/openspace/bodies/artificial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 47bc010..ec61aaf 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -303,8 +303,8 @@ class Spacecraft:
         :param target: spacecraft to be tracked
         :type target: Spacecraft
         """
-        # Include slew duration if not already target-pointing
-        if self.steering != Spacecraft.STEERING_MODES[2]:
+        # Include slew duration if not already pointing at this target
+        if self.steering != Spacecraft.STEERING_MODES[2] or self.tracked_target is not target:
             self.steering = Spacecraft.STEERING_MODES[2]
             self.tracked_target = target
             self.slewing = True
-- 
2.43.0


From e1b219b526cb84a4cd42696e6ecdbe2704010f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:07 +0000
Subject: [PATCH 05/16] fix: Gauss elements keep argument of perigee and mean
 anomaly in [0, 2 pi)

---
 src/openspace/estimation/iod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 91dd2d0..1005128 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -46,6 +46,8 @@ class Gauss:
             inc += 2 * pi
         if raan < 0:
             raan += 2 * pi
+        if ua < 0:
+            ua += 2 * pi
 
         # equation 2.99
         tau: float = sqrt(Earth.MU) * (ob2.epoch().value - ob1.epoch().value) * SECONDS_IN_DAY
@@ -86,6 +88,8 @@ class Gauss:
 
         e_anom: float = atan2(sqrt(1 - e * e) * sin(ta), cos(ta) + e)
         ma: float = e_anom - e * sin(e_anom)
+        if ma < 0:
+            ma += 2 * pi
 
         return ClassicalElements(ob1.epoch(), sma, e, inc, raan, aop, ma)
 
-- 
2.43.0


From 4c60a91a0b305f5bb0aab681f5583a0272040876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:08 +0000
Subject: [PATCH 06/16] fix: states keep their perturbation setting when
 copied, stepped and maneuvered

---
 src/openspace/bodies/artificial.py    | 7 ++++---
 src/openspace/coordinates/states.py   | 6 ++++++
 src/openspace/propagators/inertial.py | 5 +++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index ec61aaf..53ef36c 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -135,9 +135,10 @@ class Spacecraft:
         :param ric_burn: burn vector with components of radial, in-track, and cross-track (km/s)
         :type ric_burn: Vector3D
         """
-        self.propagator = RK4(
-            StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state())
-        )
+        origin: GCRF = self.current_state()
+        state: GCRF = StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), origin)
+        state.use_perturbations = origin.use_perturbations
+        self.propagator = RK4(state)
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 94c7602..a6e674c 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -137,6 +137,12 @@ class GCRF(State):
         #: boolean to determine if perturbations are modeled during propagation
         self.use_perturbations: bool = True
 
+    def copy(self) -> "GCRF":
+        """create a duplicate of the calling state that models the same perturbations"""
+        duplicate: GCRF = super().copy()
+        duplicate.use_perturbations = self.use_perturbations
+        return duplicate
+
     def acceleration_from_gravity(self) -> Vector3D:
         """calculates the gravity due to a nonspherical earth
 
diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 82e660a..beb368b 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -51,15 +51,18 @@ class RK4:
         ddays: float = dsecs / SECONDS_IN_DAY
         epoch_1 = epoch_0.plus_days(ddays)
         y1: GCRF = GCRF(epoch_1, y[0].plus(k1[0].scaled(dsecs)), y[1].plus(k1[1].scaled(dsecs)))
+        y1.use_perturbations = self.state.use_perturbations
         y1.thrust = self.thrust_vector(dsecs)
         k2: List[Vector3D] = y1.derivative()
 
         y2: GCRF = GCRF(epoch_1, y[0].plus(k2[0].scaled(dsecs)), y[1].plus(k2[1].scaled(dsecs)))
+        y2.use_perturbations = self.state.use_perturbations
         y2.thrust = self.thrust_vector(dsecs)
         k3: List[Vector3D] = y2.derivative()
 
         epoch_2 = epoch_1.plus_days(ddays)
         y3: GCRF = GCRF(epoch_2, y[0].plus(k3[0].scaled(h)), y[1].plus(k3[1].scaled(h)))
+        y3.use_perturbations = self.state.use_perturbations
         y3.thrust = self.thrust_vector(dsecs * 2)
         k4: List[Vector3D] = y3.derivative()
 
@@ -67,11 +70,13 @@ class RK4:
         dv: Vector3D = k1[0].plus(k2[0].scaled(2).plus(k3[0].scaled(2).plus(k4[0]))).scaled(coeff)
         da: Vector3D = k1[1].plus(k2[1].scaled(2).plus(k3[1].scaled(2).plus(k4[1]))).scaled(coeff)
 
+        use_perturbations: bool = self.state.use_perturbations
         self.state = GCRF(
             epoch_2,
             self.state.position.plus(dv.scaled(h)),
             self.state.velocity.plus(da.scaled(h)),
         )
+        self.state.use_perturbations = use_perturbations
 
     def maneuver(self, gcrf_thrust: Vector3D, m_dot: float, m0: float, isp: float) -> None:
         """propagate the state using continuous thrust principles
-- 
2.43.0


From 3ae620ad04dea2b5aecf8c3e3a7badeb676f4bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:08 +0000
Subject: [PATCH 07/16] fix: parenthesise the argument of the leading lunar
 latitude term

---
 src/openspace/bodies/celestial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/celestial.py b/src/openspace/bodies/celestial.py
index 7838e72..4749e71 100644
--- a/src/openspace/bodies/celestial.py
+++ b/src/openspace/bodies/celestial.py
@@ -313,7 +313,7 @@ class Moon:
 
         # Equation 3.49
         beta = (
-            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f + a2 * sin(lp)))
+            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f) + a2 * sin(lp))
             - a3 * sin(f - 2.0 * d)
             + a4 * sin(l + f - 2.0 * d)
             - a5 * sin(-l + f - 2.0 * d)
-- 
2.43.0


From bb0f657638f28569376c222b80dcbb6659828e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:09 +0000
Subject: [PATCH 08/16] fix: thrusting mass decreases from one integration step
 to the next

---
 src/openspace/propagators/inertial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index beb368b..13ed55d 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -77,6 +77,7 @@ class RK4:
             self.state.velocity.plus(da.scaled(h)),
         )
         self.state.use_perturbations = use_perturbations
+        self.m0 -= self.m_dot * h
 
     def maneuver(self, gcrf_thrust: Vector3D, m_dot: float, m0: float, isp: float) -> None:
         """propagate the state using continuous thrust principles
-- 
2.43.0


From b766346ac95459b04cd863b34b1780492b30cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:10 +0000
Subject: [PATCH 09/16] fix: refresh the attitude after a maneuver

---
 src/openspace/bodies/artificial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 53ef36c..f8297cb 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -139,6 +139,7 @@ class Spacecraft:
         state: GCRF = StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), origin)
         state.use_perturbations = origin.use_perturbations
         self.propagator = RK4(state)
+        self.update_attitude()
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
@@ -158,6 +159,7 @@ class Spacecraft:
         m_spec: float = self.m_dot / self.total_mass()
         dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
+        self.update_attitude()
 
     def sma(self) -> float:
         """calculate the semi-major axis of the calling spacecraft
-- 
2.43.0


From 43be8f113d592b20eac933ee433b8b4bb6d3d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:10 +0000
Subject: [PATCH 10/16] fix: eccentricity of a circular orbit does not fail on
 rounding

---
 src/openspace/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index c6dcfde..ec8fb17 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -173,7 +173,7 @@ class Eccentricity:
            but :math:`km` is the preferred unit throughout this package to ensure computational
            consistency and accuracy.
         """
-        return sqrt(1 - p / a)
+        return sqrt(max(0.0, 1 - p / a))
 
 
 class Flattening:
-- 
2.43.0


From d172b74020150fbfa32bd047b112ae09fdbba0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:11 +0000
Subject: [PATCH 11/16] fix: geodetic latitude near the poles does not fail on
 rounding

---
 src/openspace/coordinates/positions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/coordinates/positions.py b/src/openspace/coordinates/positions.py
index 026b5cf..9140faa 100644
--- a/src/openspace/coordinates/positions.py
+++ b/src/openspace/coordinates/positions.py
@@ -252,7 +252,7 @@ class _PositionConvertITRF:
 
         # Equation 2.77f
         n: float = a * sqrt(1.0 + eps2 * d * d / b2)
-        arg = (eps2 + 1.0) * (d / n)
+        arg = max(-1.0, min(1.0, (eps2 + 1.0) * (d / n)))
         lamb: float = asin(arg)
 
         # Equation 2.77g
-- 
2.43.0


From 9f715b734896adb48a0ecc823e0c136750406489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:12 +0000
Subject: [PATCH 12/16] fix: relative state over the orbit normal does not fail
 on rounding

---
 src/openspace/coordinates/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index a6e674c..af72bcf 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -323,7 +323,7 @@ class _StateConvertGCRF:
         rintrsw: Vector3D = rot_eci_rsw.multiply_vector(state.position)
         vintrsw: Vector3D = rot_eci_rsw.multiply_vector(state.velocity)
 
-        sinphiint: float = rintrsw.z / magrint
+        sinphiint: float = max(-1.0, min(1.0, rintrsw.z / magrint))
         phiint: float = asin(sinphiint)
         cosphiint: float = cos(phiint)
         lambdaint: float = atan2(rintrsw.y, rintrsw.x)
-- 
2.43.0


From b16429e3c7d287bb7ffb939a196daf70f7f9c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:32 +0000
Subject: [PATCH 13/16] fix: eccentricity of a determined orbit is right at the
 semilatus rectum

---
 src/openspace/estimation/iod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 1005128..0c22356 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -78,7 +78,7 @@ class Gauss:
         if ta < 0:
             ta += 2 * pi
 
-        e: float = ecosva / cos(ta)
+        e: float = sqrt(ecosva * ecosva + esinva * esinva)
 
         aop: float = ua - ta
         if aop < 0:
-- 
2.43.0


From 0b6d9c3ca07a73c5dcfd1f7ad31b10d09bffb23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:05 +0000
Subject: [PATCH 14/16] fix: orbits from two positions near perigee of an
 eccentric orbit do not fail on an iterate past the parabola

---
 src/openspace/estimation/iod.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 0c22356..3230d56 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -1,4 +1,4 @@
-from math import asin, atan2, cos, pi, sin, sqrt
+from math import asin, asinh, atan2, cos, pi, sin, sinh, sqrt
 
 from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
@@ -147,6 +147,11 @@ class Gauss:
         :return: w(omega)
         :rtype: float
         """
+        if w < 0:
+            # an iterate beyond the parabola continues on the hyperbolic branch
+            h: float = 2 * asinh(sqrt(-w))
+            return (sinh(2 * h) - 2 * h) / sinh(h) ** 3
+
         g: float = 2 * asin(sqrt(w))
         sg: float = sin(g)
         return (2 * g - sin(2 * g)) / (sg * sg * sg)
-- 
2.43.0


From 2c344eeb9bbf269280d3fd0127e0d0c2d8785c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:21 +0000
Subject: [PATCH 15/16] fix: slew to a target at another epoch is timed to
 where the target is now

---
 src/openspace/bodies/artificial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index f8297cb..26631fd 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -311,6 +311,10 @@ class Spacecraft:
             self.steering = Spacecraft.STEERING_MODES[2]
             self.tracked_target = target
             self.slewing = True
+
+            # Measure the slew to where the target is at this epoch
+            if target.current_epoch().value != self.current_epoch().value:
+                target.step_to_epoch(self.current_epoch())
             t: float = self.body_z.angle(self.target_vector(target)) * self.slew_scalar
             self.slew_stop = self.current_epoch().plus_days(t)
 
-- 
2.43.0


From 7754f1c98c1d61d3b588c6ee4775f5b76f95f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:42 +0000
Subject: [PATCH 16/16] fix: angular noise on a vector along the polar axis
 divided by zero

---
 src/openspace/math/linalg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/openspace/math/linalg.py b/src/openspace/math/linalg.py
index 4df3fe1..e40a9c8 100644
--- a/src/openspace/math/linalg.py
+++ b/src/openspace/math/linalg.py
@@ -168,9 +168,11 @@ class Vector3D:
         :return: new vector offset using gaussian distribution for the angle
         :rtype: Vector3D
         """
-        return self.rotation_about_axis(self.cross(Vector3D(0, 0, 1)), gauss(0, ang_err)).rotation_about_axis(
-            self, uniform(0, 2 * pi)
-        )
+        tilt_axis: Vector3D = self.cross(Vector3D(0, 0, 1))
+        if tilt_axis.magnitude() == 0:
+            # any axis normal to a vector along the pole will do
+            tilt_axis = Vector3D(1, 0, 0)
+        return self.rotation_about_axis(tilt_axis, gauss(0, ang_err)).rotation_about_axis(self, uniform(0, 2 * pi))
 
     def __str__(self) -> str:
         """overrides the string method so the elements can be viewed
-- 
2.43.0

