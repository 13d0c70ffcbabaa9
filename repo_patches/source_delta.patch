From 3b2994d1379ed4c1ab827382d76441e1189e7837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 01/21] fix: clamp data-fit arguments at both ends of the range

An array with elements below the range left its elements above the range
unclamped because the two tests were chained with elif.
---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index ce12a2b..2b6515b 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -544,7 +544,7 @@ class _ThwaitesFunctions:
             lam_local[lam_local < lam_min] = lam_min
 #            raise ValueError("Cannot pass value less than {} into this "
 #                             "function: {}".format(lam_min, lam))
-        elif (lam_local > lam_max).any():
+        if (lam_local > lam_max).any():
             lam_local[lam_local > lam_max] = lam_max
 #            raise ValueError("Cannot pass value greater than {} into this "
 #                             "function: {}".format(lam_max, lam))
-- 
2.43.0


From 2432ba0157513e654edc0c427d069670c2934439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:03 +0000
Subject: [PATCH 02/21] fix: detect separation when lambda leaves the data fit
 range

The data fits saturate at the ends of their range, so the shear function
offered to the integrator stays flat (White, Spline) or positive (Drela)
below it and the crossing was found late or never.
---
 ibl/thwaites_method.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 2b6515b..51cdfc5 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -159,7 +159,8 @@ class ThwaitesMethod(IBLMethod):
                 raise ValueError("Need to pass a 2-tuple for fit functions")
 
         self._set_kill_event(_ThwaitesSeparationEvent(self._calc_lambda,
-                                                      self._model.shear))
+                                                      self._model.shear,
+                                                      self._model.range()[0]))
 
     @override
     def v_e(self, x: InputParam) -> npt.NDArray:
@@ -707,17 +708,22 @@ class _ThwaitesSeparationEvent(TermEvent):
     # ----------
     #    _calc_lam: Callable that can calculate lambda.
     #    _S_fun: Callable that can calculate the shear function.
-    def __init__(self, calc_lam: Callable, shear_fun: Callable) -> None:
+    #    _lam_min: Smallest lambda for which the shear function is defined.
+    def __init__(self, calc_lam: Callable, shear_fun: Callable,
+                 lam_min: float = -np.inf) -> None:
         super().__init__()
         self._calc_lam = calc_lam
         self._shear_fun = shear_fun
+        self._lam_min = lam_min
 
     @override
     def _call_impl(self, x: float, f: npt.NDArray) -> float:
         """
         Help determine if Thwaites method integrator should terminate.
 
-        This will terminate once the shear function goes negative.
+        This will terminate once the shear function goes negative or lambda
+        leaves the range of the data fit. The data fits saturate outside of
+        their range, so there the shear function alone would never cross zero.
 
         Parameters
         ----------
@@ -730,9 +736,11 @@ class _ThwaitesSeparationEvent(TermEvent):
         Returns
         -------
         float
-            Current value of the shear function.
+            Current value of the shear function or, if smaller, the distance
+            of lambda from the lower end of the data fit range.
         """
-        return self._shear_fun(self._calc_lam(x, f))
+        lam = self._calc_lam(x, f)
+        return np.minimum(self._shear_fun(lam), lam - self._lam_min)
 
     @override
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From 34c039f6a72810d416ecca7721c51dc603d43082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:38 +0000
Subject: [PATCH 03/21] fix: Head method must not write into the edge velocity
 values

HeadMethod.tau_w raised TypeError when the edge velocity callable returned a
scalar, the rate function when it returned an int, and both overwrote small
values in the array returned by the caller's velocity function.
---
 ibl/head_method.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index ea12662..64f473a 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -219,8 +219,7 @@ class HeadMethod(IBLMethod):
 
         delta_m = self._solution(x)[0]
         shape_d = self._solution(x)[1]
-        u_e = self.u_e(x)
-        u_e[np.abs(u_e) < 0.001] = 0.001
+        u_e = np.maximum(self.u_e(x), 0.001)
         re_delta_m = u_e*delta_m/self._nu
         c_f = c_f_fun(re_delta_m, shape_d)
         return 0.5*rho*u_e**2*c_f
@@ -282,11 +281,7 @@ class HeadMethod(IBLMethod):
         shape_d = np.asarray(f[1])
         if (shape_d < 1.11).any():
             shape_d[shape_d < 1.11] = 1.11
-        u_e = self.u_e(x)
-        if isinstance(u_e, float):
-            u_e = max(u_e, 0.001)
-        else:
-            u_e[np.abs(u_e) < 0.001] = 0.001
+        u_e = np.maximum(self.u_e(x), 0.001)
         du_e = self.du_e(x)
         re_delta_m = u_e*delta_m/self._nu
         c_f = c_f_fun(re_delta_m, shape_d)
-- 
2.43.0


From 5bc0915fd3a868498549e6035d31db90a6b607b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:38 +0000
Subject: [PATCH 04/21] fix: do not keep user termination events after a solve

solve() appended the events of the call to the method's own list, so every
later solve on the same object still monitored them.
---
 ibl/ibl_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 4033a83..2a527c2 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -556,7 +556,7 @@ class IBLMethod(ABC):
             atol = atol_set
 
         # setup the ODE solver
-        kill_events = self._kill_events
+        kill_events = list(self._kill_events)
 
         if isinstance(term_event, list):
             kill_events += term_event
-- 
2.43.0


From f94f65dbfdf16511fd300fbff0d6a86345357ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:38 +0000
Subject: [PATCH 05/21] fix: XFoilReader.filename returns the loaded file name

---
 ibl/reference/_xfoil_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 2d8eb60..a74b37b 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -226,6 +226,8 @@ class XFoilReader:
             for w in self._wake:
                 w.s -= s_offset
 
+        self._filename = filename
+
     def upper_count(self) -> int:
         """
         Return number of points on the upper surface of airofil.
-- 
2.43.0


From 9cc166250e5014ee83ee5eeac418e7a846e9d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:38 +0000
Subject: [PATCH 06/21] fix: give each surface its own stagnation row in
 XFoilReader

When a dump row has exactly zero edge velocity the same object was put on
both surfaces, so its arclength was shifted twice and the lower surface
started at the negative of the stagnation arclength.
---
 ibl/reference/_xfoil_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index a74b37b..5d7089c 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -200,7 +200,7 @@ class XFoilReader:
         # find stagnation point
         if self._upper[0].u_e_rel == 0:
             stag_s = self._upper[0].s
-            self._lower.insert(0, self._upper[0])
+            self._lower.insert(0, copy.copy(self._upper[0]))
         else:
             # interpolate properties
             up = self._upper[0]
-- 
2.43.0


From 6aa276493eb95c5ed7f6507d46abdbe66951e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:38 +0000
Subject: [PATCH 07/21] fix: a rejected FalknerSkan reset keeps the previous
 beta

---
 ibl/analytic/_falkner_skan.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 071b198..85e0d08 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -91,9 +91,14 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         if (beta < -0.19884) or (beta > 2):
             raise ValueError("Invalid wedge angle parameter: "
                              + f"{beta}")
+        beta_prev = self._beta
         self._beta = beta
 
-        self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        try:
+            self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        except ValueError:
+            self._beta = beta_prev
+            raise
 
     def reset_m(self, m: float, eta_inf: Optional[float] = None,
                 fw_pp: Optional[float] = None) -> None:
-- 
2.43.0


From 88181f5fbf70540473fc3beb3de3ca5834b06c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:38 +0000
Subject: [PATCH 08/21] fix: FalknerSkan.reset_m rejects m=-1 with ValueError

m=-1 has no corresponding wedge angle and raised ZeroDivisionError.
---
 ibl/analytic/_falkner_skan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 85e0d08..59a86a1 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -128,6 +128,8 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         """
         if m == np.inf:
             beta = 2.0
+        elif m <= -1:
+            raise ValueError(f"Invalid edge velocity profile parameter: {m}")
         else:
             beta = 2*m/(1+m)
 
-- 
2.43.0


From e31b7c3c348b7e7dc82ba69e5d5d9654efeebbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:52 +0000
Subject: [PATCH 09/21] fix: reject unusable velocity specifications before
 changing anything

set_velocity stored u_e and du_e before it had checked the derivatives, so a
rejected call left a mixture of old and new relations; a non-callable second
derivative was accepted; missing or malformed points raised TypeError or
IndexError instead of ValueError, and gradient points were not validated.
---
 ibl/ibl_method.py | 94 ++++++++++++++++++++++-------------------------
 1 file changed, 44 insertions(+), 50 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 2a527c2..cbd9676 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -414,16 +414,46 @@ class IBLMethod(ABC):
                     -2.5*(fun(xo))
                     +4*(fun(xo-dx) + fun(xo+dx))/3)/(dx**2)
 
+        def point_vectors(pts: Any,
+                          name: str) -> Tuple[npt.NDArray, npt.NDArray]:
+            """Return the two vectors of a 2-tuple of points."""
+            try:
+                x_pts, y_pts = (np.asarray(p) for p in pts)
+            except (TypeError, ValueError) as exc:
+                raise ValueError(f"Don't know how to use {pts} to initialize "
+                                 + name) from exc
+            # check to make sure have two vectors of same length suitable
+            #   for building splines
+            if x_pts.ndim != 1:
+                raise ValueError(f"First element of {name} 2-tuple must be "
+                                 + "1D vector of distances")
+            if y_pts.ndim != 1:
+                raise ValueError(f"Second element of {name} 2-tuple must be "
+                                 + "1D vector of values")
+            if x_pts.shape[0] != y_pts.shape[0]:
+                raise ValueError(f"Vectors in {name} 2-tuple must be of same "
+                                 + "length")
+            if x_pts.shape[0] < 2:
+                raise ValueError(f"Must pass at least two points for {name}")
+            return x_pts, y_pts
+
         # check if U_e is callable
         if callable(u_e):
+            # check the derivatives before changing anything
+            if du_e is None and d2u_e is not None:
+                raise ValueError("Can only pass second derivative if "
+                                 + "first derivative was specified")
+            if du_e is not None and not callable(du_e):
+                raise ValueError("Must pass in callable object for first "
+                                 "derivative if callable u_e given")
+            if d2u_e is not None and not callable(d2u_e):
+                raise ValueError("Must pass in callable object for second "
+                                 "derivative if callable u_e given")
+
             self._u_e = u_e
 
             # if dU_edx not provided then use finite differences
             if du_e is None:
-                if d2u_e is not None:
-                    raise ValueError("Can only pass second derivative if "
-                                     + "first derivative was specified")
-
                 # if U_e has derivative method then use it
                 if (hasattr(u_e, "derivative")
                         and callable(getattr(u_e, "derivative"))):
@@ -444,9 +474,6 @@ class IBLMethod(ABC):
                     self._du_e = du_e_fun
                     self._d2u_e = d2u_e_fun
             else:
-                if not callable(du_e):
-                    raise ValueError("Must pass in callable object for first "
-                                     "derivative if callable u_e given")
                 self._du_e = du_e
 
                 # if d2U_edx2 not provied then use finite difference
@@ -463,54 +490,21 @@ class IBLMethod(ABC):
 
                         self._d2u_e = d2u_e_fun
                 else:
-                    if not callable(du_e):
-                        raise ValueError("Must pass in callable object for "
-                                         "first derivative if callable u_e "
-                                         "given")
-
                     self._d2u_e = d2u_e
         elif isinstance(u_e, (int, float)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
-            if len(du_e) == 2:
-                x_pts = np.asarray(du_e[0])
-                du_e_pts = np.asarray(du_e[1])
-                pchip = PchipInterpolator(x_pts, du_e_pts)
-                self._du_e = pchip
-                pchipa = pchip.antiderivative()
-                pchipa.c[-1, :] = pchipa.c[-1, :] + u_e
-                self._u_e = pchipa
-                self._d2u_e = pchip.derivative()
-            else:
-                # otherwise unknown velocity input
-                raise ValueError(f"Don't know how to use {du_e} to "
-                                 + "initialize velocity derivative")
+            x_pts, du_e_pts = point_vectors(du_e, "velocity derivative")
+            pchip = PchipInterpolator(x_pts, du_e_pts)
+            self._du_e = pchip
+            pchipa = pchip.antiderivative()
+            pchipa.c[-1, :] = pchipa.c[-1, :] + u_e
+            self._u_e = pchipa
+            self._d2u_e = pchip.derivative()
         else:
             # if is 2-tuple then assume x, U_e pairs to build spline
-            if len(u_e) == 2:
-                x_pts = np.asarray(u_e[0])
-                u_e_pts = np.asarray(u_e[1])
-                npts = x_pts.shape[0]
-                # check to make sure have two vectors of same length suitable
-                #   for building splines
-                if x_pts.ndim != 1:
-                    raise ValueError("First element of u_e 2-tuple must be 1D "
-                                     + "vector of distances")
-                if u_e_pts.ndim != 1:
-                    raise ValueError("Second element of u_e 2-tuple must be "
-                                     + "1D vector of Velocities")
-                if npts != u_e_pts.shape[0]:
-                    raise ValueError("Vectors in u_e 2-tuple must be of same "
-                                     + "length")
-                if npts < 2:
-                    raise ValueError("Must pass at least two points for edge "
-                                     + "velocity")
-
-                u_e_spline = PchipInterpolator(x_pts, u_e_pts)
-                self.set_velocity(u_e_spline)
-            else:
-                # otherwise unknown velocity input
-                raise ValueError(f"Don't know how to use {u_e} to initialize "
-                                 + "velocity")
+            x_pts, u_e_pts = point_vectors(u_e, "velocity")
+            u_e_spline = PchipInterpolator(x_pts, u_e_pts)
+            self.set_velocity(u_e_spline)
 
     def solve(self, x0: float, x_end: float,
               term_event: Optional[Union[TermEvent, List[TermEvent]]] = None
-- 
2.43.0


From 0e0edef74e2e28de70037d91fee0e0cdb419a9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 10/21] fix: drop the previous Stanford 1968 station when a
 reset is rejected

---
 ibl/reference/_stanford_1968_station.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ibl/reference/_stanford_1968_station.py b/ibl/reference/_stanford_1968_station.py
index f1ceaf9..4c159c6 100644
--- a/ibl/reference/_stanford_1968_station.py
+++ b/ibl/reference/_stanford_1968_station.py
@@ -448,6 +448,12 @@ class StanfordOlympics1968StationData:
         ValueError
             If invalid data is used.
         """
+        # drop the previous station first so that none of its data remains when
+        # the new data is rejected
+        self._x = np.inf
+        self._reset_station_summary(si_unit=si_unit, station_summary="")
+        self._reset_station_data(si_unit=si_unit, station_data=[])
+
         self._reset_summary_data(si_unit=si_unit, summary_data=summ_data)
         self._reset_station_summary(si_unit=si_unit, station_summary=stat_summ)
         self._reset_station_data(si_unit=si_unit, station_data=stat_data)
-- 
2.43.0


From c7d22bad5eb011cdc13834eec2f34a31b2e3bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:17 +0000
Subject: [PATCH 11/21] fix: the Thwaites separation criterion is a single
 number

---
 ibl/thwaites_method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 51cdfc5..f0bc2bb 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -739,7 +739,8 @@ class _ThwaitesSeparationEvent(TermEvent):
             Current value of the shear function or, if smaller, the distance
             of lambda from the lower end of the data fit range.
         """
-        lam = self._calc_lam(x, f)
+        # only one state variable: the criterion has to be a single number
+        lam = self._calc_lam(x, f[0])
         return np.minimum(self._shear_fun(lam), lam - self._lam_min)
 
     @override
-- 
2.43.0


From 3d8950bd28c2088c61e1211c2c2f4aed3e7b99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:40 +0000
Subject: [PATCH 12/21] fix: keep the Falkner-Skan range search on the fluid
 side of the wall

For beta between about -0.063 and -0.045 the secant step for eta_inf went
negative and the search failed or ended in the mirror image of the
solution, with negative eta_inf, fw_pp and thicknesses. With fw_pp given
no such solution is acceptable, so the search reports failure.
---
 ibl/analytic/_analytic_2d_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 8fe4579..16445b7 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -626,6 +626,12 @@ class Analytic2dSimilarityIncompressible(ABC):
                     f2_prev = f2_curr
                     eta_inf_prev = eta_inf_curr
                     eta_inf_curr = eta_inf_prev + delta_eta_inf
+                    if eta_inf_curr <= 0:
+                        # step left the fluid side of the wall
+                        if fw_pp is not None:
+                            raise ValueError("Could not find eta_inf for "
+                                             + f"f\'\'(0)={fw_pp:.6f}.")
+                        eta_inf_curr = 0.5*eta_inf_prev
                 j = j + 1
         else:
             eta_inf_curr = eta_inf
-- 
2.43.0


From 11e1a3bd8c37c0ffe06ff9ab283c742a95dbabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:30 +0000
Subject: [PATCH 13/21] fix: a similarity solution that cannot be found leaves
 the object unchanged

A reset whose integration or shear thickness search failed left the new
profile, range and thicknesses mixed with the previous parameters.
---
 ibl/analytic/_analytic_2d_base.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 16445b7..f76c53e 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -462,6 +462,31 @@ class Analytic2dSimilarityIncompressible(ABC):
             raise ValueError("Invalid solution initial condition value: "
                              + f"{fw_pp}")
 
+        previous = dict(vars(self))
+        try:
+            self._set_solution(fw_pp=fw_pp, eta_inf=eta_inf)
+        except ValueError:
+            # do not leave parts of the failed solution behind
+            vars(self).update(previous)
+            raise
+
+    def _set_solution(self, fw_pp: Optional[float],
+                      eta_inf: Optional[float]) -> None:
+        """
+        Find the solution and the invariant thicknesses.
+
+        Parameters
+        ----------
+        fw_pp : Optional[float]
+            Second derivative condition for the ODE.
+        eta_inf : Optional[float]
+            Maximum similarity coordinate.
+
+        Raises
+        ------
+        ValueError
+            If solution or shear thickness could not be found.
+        """
         self._calculate_solution(fw_pp=fw_pp, eta_inf=eta_inf)
 
         # calculate the invariant thickness now that have solution
-- 
2.43.0


From f8b49b1315834026cb4c79d63120c9367f1779a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:39 +0000
Subject: [PATCH 14/21] fix: a rejected Stanford case does not keep the
 previous case number

Loading an unknown or invalid case discards the data of the previous one
but left its identifier in place.
---
 ibl/reference/_stanford_1968.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index 8655e50..a2ec7da 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -109,12 +109,12 @@ class StanfordOlympics1968:
             When case file to be read contains invalid data.
         """
         # reset everything
+        self._case = ""
         self._nu_ref = np.inf
         self._smooth_vel = None
         self._station = []
 
         if case == "":
-            self._case = ""
             return
 
         case_data = self._get_case_data(case_id=case)
-- 
2.43.0


From 1e59e4b1c0a3a9ee000c2f20634cac00d7171b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:30 +0000
Subject: [PATCH 15/21] fix: data fits evaluate whole-number arguments as real
 numbers

An integer argument made an integer array, so that the end of the range
written into it and the values of np.piecewise were cut to whole numbers.
---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index f0bc2bb..53a6f99 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -539,7 +539,7 @@ class _ThwaitesFunctions:
 
     def _check_range(self, lam: InputParam) -> InputParam:
         lam_min, lam_max = self.range()
-        lam_local = np.array(lam)
+        lam_local = np.array(lam, float)
 
         if (lam_local < lam_min).any():
             lam_local[lam_local < lam_min] = lam_min
-- 
2.43.0


From d2cdc661628f53718664bbff8d026c1aaafad4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:30 +0000
Subject: [PATCH 16/21] fix: entrainment relations evaluate whole-number
 arguments as real numbers

An integer argument made np.piecewise return integers.
---
 ibl/head_method.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index 64f473a..b3f93ab 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -309,7 +309,7 @@ class HeadMethod(IBLMethod):
         numpy.ndarray
             Entrainment shape factor.
         """
-        shape_d = np.asarray(shape_d)
+        shape_d = np.asarray(shape_d, float)
         if (shape_d <= 1.1).any():
             shape_d[shape_d <= 1.1] = 1.1001
 #            raise ValueError("Cannot pass displacement shape factor less "
@@ -347,7 +347,7 @@ class HeadMethod(IBLMethod):
         numpy.ndarray
             Entrainment shape factor.
         """
-        shape_d = np.asarray(shape_d)
+        shape_d = np.asarray(shape_d, float)
         if (shape_d <= 1.1).any():
             shape_d[shape_d <= 1.1] = 1.1001
 #            raise ValueError("Cannot pass displacement shape factor less "
@@ -383,7 +383,7 @@ class HeadMethod(IBLMethod):
         numpy.ndarray
             Displacement shape factor.
         """
-        shape_entrainment = np.asarray(shape_entrainment)
+        shape_entrainment = np.asarray(shape_entrainment, float)
         if (shape_entrainment <= 3.32254659218600974).any():
             shape_entrainment[shape_entrainment <= 3.32254659218600974] = 3.323
 #            raise ValueError("Cannot pass entrainment shape factor less "
-- 
2.43.0


From a07244b73145201d8e87d3ba2f0d1322abcb3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:54 +0000
Subject: [PATCH 17/21] fix: a short header line does not hide the wake rows of
 an XFoil dump

A header of less than 80 characters was taken for the first wake row, so
that the wake was read as airfoil rows and the file was rejected.
---
 ibl/reference/_xfoil_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 5d7089c..965b2f6 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -799,7 +799,7 @@ class XFoilReader:
         # find the wake index (if exists)
         wake_idx = -1
         for idx, line in enumerate(buff):
-            if len(line) < 80:
+            if len(line) < 80 and line[0] != "#":
                 wake_idx = idx
                 break
         if buff[0][0] == "#":
-- 
2.43.0


From 3e6303591eb30fa2522eab0936b2995445636c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:32 +0000
Subject: [PATCH 18/21] fix: a solve that raises does not leave an earlier
 solution behind

---
 ibl/ibl_method.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index cbd9676..b7721d0 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -536,6 +536,9 @@ class IBLMethod(ABC):
         TypeError
             When solution parameters have not been set.
         """
+        # an earlier solution does not outlive this solve
+        self._solution = None
+
         # setup the initial conditions
         self._ic.nu = self._nu
         self._ic.du_e = float(self.du_e(x0))
@@ -562,7 +565,6 @@ class IBLMethod(ABC):
                         rtol=rtol, atol=atol)
 
         # if completed gather info
-        self._solution = None
         x_end = x0
         f_end = y0
         status = TermReason.UNKNOWN
-- 
2.43.0


From 0b488dc1e741750229eca9b34a915a7431f85e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:32 +0000
Subject: [PATCH 19/21] fix: an event that only observes is not reported as the
 end of a solve

---
 ibl/ibl_method.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index b7721d0..8825c9f 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -581,6 +581,8 @@ class IBLMethod(ABC):
             elif rtn.status == 1:
                 message = "Event not found."
                 for i, xe in enumerate(rtn.t_events):
+                    if not getattr(kill_events[i], "terminal", False):
+                        continue  # did not end the integration
                     if xe.shape[0] > 0:
                         x_end = xe[0]
                         f_end = rtn.sol(x_end)
-- 
2.43.0


From dce0afe974e6c949f80694c314cb89f816ee6a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:32 +0000
Subject: [PATCH 20/21] fix: numpy numbers are accepted as start value of the
 edge velocity

---
 ibl/ibl_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 8825c9f..24b427d 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -491,7 +491,7 @@ class IBLMethod(ABC):
                         self._d2u_e = d2u_e_fun
                 else:
                     self._d2u_e = d2u_e
-        elif isinstance(u_e, (int, float)):
+        elif isinstance(u_e, (int, float, np.integer, np.floating)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
             x_pts, du_e_pts = point_vectors(du_e, "velocity derivative")
             pchip = PchipInterpolator(x_pts, du_e_pts)
-- 
2.43.0


From 01464bf68ed6d52b00acb38368fc3782a0605687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:32 +0000
Subject: [PATCH 21/21] fix: numeric setters and similarity parameters reject
 nan

---
 ibl/analytic/_analytic_2d_base.py       |  8 ++++----
 ibl/analytic/_falkner_skan.py           |  4 ++--
 ibl/head_method.py                      |  4 ++--
 ibl/ibl_method.py                       |  2 +-
 ibl/initial_condition.py                |  2 +-
 ibl/reference/_stanford_1968_station.py | 24 ++++++++++++------------
 ibl/reference/_xfoil_data.py            | 20 ++++++++++----------
 ibl/reference/_xfoil_reader.py          |  8 ++++----
 ibl/thwaites_method.py                  |  2 +-
 9 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index f76c53e..adfd576 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -69,7 +69,7 @@ class Analytic2dSimilarityIncompressible(ABC):
 
     @u_ref.setter
     def u_ref(self, u_ref: float) -> None:
-        if u_ref <= 0:
+        if not u_ref > 0:
             raise ValueError(f"Invalid edge velocity value: {u_ref}")
 
         self._u_ref = u_ref
@@ -84,7 +84,7 @@ class Analytic2dSimilarityIncompressible(ABC):
 
     @nu_ref.setter
     def nu_ref(self, nu_ref: float) -> None:
-        if nu_ref <= 0:
+        if not nu_ref > 0:
             raise ValueError(f"Invalid kinematic viscosity value: {nu_ref}")
 
         self._nu_ref = nu_ref
@@ -455,10 +455,10 @@ class Analytic2dSimilarityIncompressible(ABC):
             If invalid value is passed in.
         """
         # Error checking
-        if (eta_inf is not None) and (eta_inf <= 0):
+        if (eta_inf is not None) and (not eta_inf > 0):
             raise ValueError("Invalid maximum similarity parameter: "
                              + f"{eta_inf}")
-        if (fw_pp is not None) and (fw_pp <= 0):
+        if (fw_pp is not None) and (not fw_pp > 0):
             raise ValueError("Invalid solution initial condition value: "
                              + f"{fw_pp}")
 
diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 59a86a1..65b65d6 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -39,7 +39,7 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
                  fw_pp: Optional[float] = None,
                  eta_inf: Optional[float] = None) -> None:
         # need to get the class in default state
-        if (beta < -0.19884) or (beta > 2):
+        if not -0.19884 <= beta <= 2:
             raise ValueError(f"Invalid inviscid wedge angle parameter: {beta}")
 
         # initialize base class
@@ -88,7 +88,7 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
             If invalid value is passed in.
         """
         # Error checking
-        if (beta < -0.19884) or (beta > 2):
+        if not -0.19884 <= beta <= 2:
             raise ValueError("Invalid wedge angle parameter: "
                              + f"{beta}")
         beta_prev = self._beta
diff --git a/ibl/head_method.py b/ibl/head_method.py
index b3f93ab..f97b9c6 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -46,7 +46,7 @@ class HeadMethod(IBLMethod):
 
     @initial_delta_m.setter
     def initial_delta_m(self, delta_m0: float) -> None:
-        if delta_m0 <= 0:
+        if not delta_m0 > 0:
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
         cast(ManualCondition, self._ic).del_m = delta_m0
 
@@ -60,7 +60,7 @@ class HeadMethod(IBLMethod):
 
     @initial_shape_d.setter
     def initial_shape_d(self, shape_d: float) -> None:
-        if shape_d <= 0:
+        if not shape_d > 0:
             raise ValueError(f"Invalid displacement shape factor: {shape_d}")
         cast(ManualCondition, self._ic).del_d = shape_d*self.initial_delta_m
 
diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 24b427d..638b864 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -365,7 +365,7 @@ class IBLMethod(ABC):
 
     @nu.setter
     def nu(self, nu: float) -> None:
-        if nu <= 0:
+        if not nu > 0:
             raise ValueError(f"Invalid kinematic viscosity: {nu}")
         self._nu = nu
 
diff --git a/ibl/initial_condition.py b/ibl/initial_condition.py
index 641899b..a955f31 100644
--- a/ibl/initial_condition.py
+++ b/ibl/initial_condition.py
@@ -52,7 +52,7 @@ class InitialCondition(ABC):
 
     @nu.setter
     def nu(self, nu: float) -> None:
-        if nu <= 0:
+        if not nu > 0:
             raise ValueError(f"Invaid kinematic viscosity: {nu}")
         self._nu = nu
 
diff --git a/ibl/reference/_stanford_1968_station.py b/ibl/reference/_stanford_1968_station.py
index 4c159c6..903eaec 100644
--- a/ibl/reference/_stanford_1968_station.py
+++ b/ibl/reference/_stanford_1968_station.py
@@ -105,7 +105,7 @@ class StanfordOlympics1968StationData:
 
     @u_e.setter
     def u_e(self, u_e: float) -> None:
-        if u_e <= 0:
+        if not u_e > 0:
             raise ValueError(f"Invalid edge velocity: {u_e}")
         self._u_e = u_e
 
@@ -132,7 +132,7 @@ class StanfordOlympics1968StationData:
 
     @delta_d.setter
     def delta_d(self, delta_d: float) -> None:
-        if delta_d <= 0:
+        if not delta_d > 0:
             raise ValueError(f"Invalid momentum thickness: {delta_d}")
         self._delta_d = delta_d
 
@@ -147,7 +147,7 @@ class StanfordOlympics1968StationData:
 
     @delta_m.setter
     def delta_m(self, delta_m: float) -> None:
-        if delta_m <= 0:
+        if not delta_m > 0:
             raise ValueError(f"Invalid momentum thickness: {delta_m}")
         self._delta_m = delta_m
 
@@ -162,7 +162,7 @@ class StanfordOlympics1968StationData:
 
     @delta_k.setter
     def delta_k(self, delta_k: float) -> None:
-        if delta_k <= 0:
+        if not delta_k > 0:
             raise ValueError(f"Invalid kinetic energy thickness: {delta_k}")
         self._delta_k = delta_k
 
@@ -177,7 +177,7 @@ class StanfordOlympics1968StationData:
 
     @delta_c.setter
     def delta_c(self, delta_c: float) -> None:
-        if delta_c <= 0:
+        if not delta_c > 0:
             raise ValueError(f"Invalid Clauser thickness: {delta_c}")
         self._delta_c = delta_c
 
@@ -192,7 +192,7 @@ class StanfordOlympics1968StationData:
 
     @shape_d.setter
     def shape_d(self, shape_d: float) -> None:
-        if shape_d <= 0:
+        if not shape_d > 0:
             raise ValueError(f"Invalid displacement shape factor: {shape_d}")
         self._shape_d = shape_d
 
@@ -207,7 +207,7 @@ class StanfordOlympics1968StationData:
 
     @shape_k.setter
     def shape_k(self, shape_k: float) -> None:
-        if shape_k <= 0:
+        if not shape_k > 0:
             raise ValueError(f"Invalid kinetic energy shape factor: {shape_k}")
         self._shape_k = shape_k
 
@@ -222,7 +222,7 @@ class StanfordOlympics1968StationData:
 
     @shape_eq.setter
     def shape_eq(self, shape_eq: float) -> None:
-        if shape_eq <= 0:
+        if not shape_eq > 0:
             raise ValueError("Invalid kinetic energy shape factor: "
                              + f"{shape_eq}")
         self._shape_eq = shape_eq
@@ -286,7 +286,7 @@ class StanfordOlympics1968StationData:
 
     @u_star.setter
     def u_star(self, u_star: float) -> None:
-        if u_star <= 0:
+        if not u_star > 0:
             raise ValueError(f"Invalid wall shear velocity: {u_star}")
         self._u_star = u_star
 
@@ -301,7 +301,7 @@ class StanfordOlympics1968StationData:
 
     @nu.setter
     def nu(self, nu: float) -> None:
-        if nu <= 0:
+        if not nu > 0:
             raise ValueError(f"Invalid kinematic viscosity: {nu}")
         self._nu = nu
 
@@ -316,7 +316,7 @@ class StanfordOlympics1968StationData:
 
     @re_delta_d.setter
     def re_delta_d(self, re_delta_d: float) -> None:
-        if re_delta_d <= 0:
+        if not re_delta_d > 0:
             raise ValueError("Invalid displacement thickness Reynolds number: "
                              + f"{re_delta_d}")
         self._re_delta_d = re_delta_d
@@ -332,7 +332,7 @@ class StanfordOlympics1968StationData:
 
     @re_delta_m.setter
     def re_delta_m(self, re_delta_m: float) -> None:
-        if re_delta_m <= 0:
+        if not re_delta_m > 0:
             raise ValueError("Invalid momentum thickness Reynolds number: "
                              + f"{re_delta_m}")
         self._re_delta_m = re_delta_m
diff --git a/ibl/reference/_xfoil_data.py b/ibl/reference/_xfoil_data.py
index 3971ee9..1875867 100644
--- a/ibl/reference/_xfoil_data.py
+++ b/ibl/reference/_xfoil_data.py
@@ -60,7 +60,7 @@ class XFoilAirfoilData:
 
     @s.setter
     def s(self, s: float) -> None:
-        if s < 0:
+        if not s >= 0:
             raise ValueError("Invalid arclength distance from leading edge: "
                              + f"{s}")
         self._s = s
@@ -112,7 +112,7 @@ class XFoilAirfoilData:
 
     @delta_d.setter
     def delta_d(self, delta_d: float) -> None:
-        if delta_d < 0:
+        if not delta_d >= 0:
             raise ValueError(f"Invalid displacement thickness: {delta_d}")
         self._delta_d = delta_d
 
@@ -127,7 +127,7 @@ class XFoilAirfoilData:
 
     @delta_m.setter
     def delta_m(self, delta_m: float) -> None:
-        if delta_m < 0:
+        if not delta_m >= 0:
             raise ValueError(f"Invalid momentum thickness: {delta_m}")
         self._delta_m = delta_m
 
@@ -142,7 +142,7 @@ class XFoilAirfoilData:
 
     @c_f.setter
     def c_f(self, c_f: float) -> None:
-        if c_f < 0:
+        if not c_f >= 0:
             raise ValueError(f"Invalid skin friction coefficient: {c_f}")
         self._c_f = c_f
 
@@ -157,7 +157,7 @@ class XFoilAirfoilData:
 
     @shape_d.setter
     def shape_d(self, shape_d: float) -> None:
-        if shape_d <= 0:
+        if not shape_d > 0:
             raise ValueError(f"Invalid displacement shape factor: {shape_d}")
         self._shape_d = shape_d
 
@@ -172,7 +172,7 @@ class XFoilAirfoilData:
 
     @shape_k.setter
     def shape_k(self, shape_k: float) -> None:
-        if shape_k <= 0:
+        if not shape_k > 0:
             raise ValueError(f"Invalid kinetic energy shape factor: {shape_k}")
         self._shape_k = shape_k
 
@@ -301,7 +301,7 @@ class XFoilWakeData:
 
     @s.setter
     def s(self, s: float) -> None:
-        if s < 0:
+        if not s >= 0:
             raise ValueError("Invalid arclength distance from leading edge: "
                              + f"{s}")
         self._s = s
@@ -353,7 +353,7 @@ class XFoilWakeData:
 
     @delta_d.setter
     def delta_d(self, delta_d: float) -> None:
-        if delta_d < 0:
+        if not delta_d >= 0:
             raise ValueError(f"Invalid displacement thickness: {delta_d}")
         self._delta_d = delta_d
 
@@ -368,7 +368,7 @@ class XFoilWakeData:
 
     @delta_m.setter
     def delta_m(self, delta_m: float) -> None:
-        if delta_m < 0:
+        if not delta_m >= 0:
             raise ValueError(f"Invalid momentum thickness: {delta_m}")
         self._delta_m = delta_m
 
@@ -383,7 +383,7 @@ class XFoilWakeData:
 
     @shape_d.setter
     def shape_d(self, shape_d: float) -> None:
-        if shape_d <= 0:
+        if not shape_d > 0:
             raise ValueError(f"Invalid displacement shape factor: {shape_d}")
         self._shape_d = shape_d
 
diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 965b2f6..5eb08f7 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -85,7 +85,7 @@ class XFoilReader:
 
     @u_ref.setter
     def u_ref(self, u_ref: float) -> None:
-        if u_ref <= 0:
+        if not u_ref > 0:
             raise ValueError(f"Invalid reference velocity: {u_ref}")
         self._u_ref = u_ref
 
@@ -99,7 +99,7 @@ class XFoilReader:
 
     @c.setter
     def c(self, c: float) -> None:
-        if c <= 0:
+        if not c > 0:
             raise ValueError(f"Invalid chord length: {c}")
         self._c = c
 
@@ -114,7 +114,7 @@ class XFoilReader:
 
     @reynolds.setter
     def reynolds(self, re: float) -> None:
-        if re < 0:
+        if not re >= 0:
             raise ValueError(f"Invalid Reynolds number: {re}")
         self._re = re
 
@@ -128,7 +128,7 @@ class XFoilReader:
 
     @n_trans.setter
     def n_trans(self, n_trans: float) -> None:
-        if n_trans <= 0:
+        if not n_trans > 0:
             raise ValueError(f"Invalid amplification factor: {n_trans}")
         self._n_trans = n_trans
 
diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 53a6f99..de8d6a2 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -74,7 +74,7 @@ class ThwaitesMethod(IBLMethod):
 
     @initial_delta_m.setter
     def initial_delta_m(self, delta_m0: float) -> None:
-        if delta_m0 <= 0:
+        if not delta_m0 > 0:
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
         cast(ManualCondition, self._ic).del_m = delta_m0
 
-- 
2.43.0

