From 0c126c47791c7fdac5b70660b3ba6f6f59da5fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 01/32] fix: LLModel keeps previous deflections when
 control_state is omitted

---
 machup/llmodel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 812c189..ed935e8 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -245,6 +245,11 @@ class LLModel:
 
             self._compute_deflection_efficiency()
 
+        else:
+            # all control surfaces are at zero deflection
+            self._control_data["delta_flap"] = np.zeros(self._num_vortices)
+            self._compute_deflection_efficiency()
+
     def _compute_deflection_efficiency(self):
         # Compute flap deflection efficiency using linear fit of
         # figure 1.7.5 in Phillips
-- 
2.43.0


From 79c8aa892a0453c8c31938842142276b75eab7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 02/32] fix: LLModel default aero_state reuses the previous
 freestream

---
 machup/llmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index ed935e8..e2a70ce 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -210,8 +210,9 @@ class LLModel:
 
         else:
             # assume uniform flow in -x direction for now
-            v_local[:, 0] = -10.
-            u_inf[0] = -1.
+            v_local[:] = [-10., 0., 0.]
+            u_inf[:] = [-1., 0., 0.]
+            rho_local[:] = 1.
 
     def _superimpose_rotation(self, state):
         # Calculate velocities due to rotation and superimpose them
-- 
2.43.0


From 8c6889e01452b61eb40d38d447577837a3e4217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 03/32] fix: damping_derivatives restores the pitch rate as yaw
 rate

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 55eb927..b12ed99 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -938,7 +938,7 @@ class MachUp:
             damp_deriv["Cl_rbar"] = (forw["MX"]-back["MX"])/non_dim/self.lat_ref
             damp_deriv["Cm_rbar"] = (forw["MY"]-back["MY"])/non_dim/self.long_ref
             damp_deriv["Cn_rbar"] = (forw["MZ"]-back["MZ"])/non_dim/self.lat_ref
-            aero_state["yaw_rate"] = q0
+            aero_state["yaw_rate"] = r0
 
         else:
             aero_state = {"V_mag":10,
-- 
2.43.0


From 19f34750ff0c1f131d53c7812c9d0855603090d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 04/32] fix: analyses modify the caller's state dictionaries

---
 machup/MU.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index b12ed99..d68cded 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -145,6 +145,7 @@ class MachUp:
 
         """
         if aero_state:
+            aero_state = aero_state.copy()
             prop_results = {}
             wing_results = {}
             total_results = {}
@@ -415,6 +416,7 @@ class MachUp:
         """
 
         if aero_state:
+            aero_state = aero_state.copy()
             ao = aero_state.get("alpha",0.)
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
             Normal = []
@@ -562,6 +564,7 @@ class MachUp:
         """
         if self.myairplane._wings:
             if aero_state:
+                aero_state = aero_state.copy()
                 a0 = aero_state.get("alpha",0.) 
                 a = 0.
                 while True:
@@ -793,6 +796,7 @@ class MachUp:
         stab_deriv = {}
 
         if aero_state:
+            aero_state = aero_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.5
@@ -879,6 +883,7 @@ class MachUp:
         damp_deriv = {}
         
         if aero_state:
+            aero_state = aero_state.copy()
             V = aero_state.get("V_mag",10.)
             DP = 0.5*aero_state.get("rho",0.0023769)*V*V*self.Sw
 
@@ -989,6 +994,7 @@ class MachUp:
         cont_deriv = {}
 
         if control_state:
+            control_state = control_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.25
@@ -1224,6 +1230,8 @@ class MachUp:
 
         """
         if aero_state and control_state:
+            aero_state = aero_state.copy()
+            control_state = control_state.copy()
 
             a, de = 0.,0.
             iters = 0.
-- 
2.43.0


From f37d145766953b160af1471947cb5e4e3ade6e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 05/32] fix: solve with a filename and no aero_state raises
 UnboundLocalError

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index d68cded..40766f8 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -177,7 +177,7 @@ class MachUp:
             aero_state = {"V_mag":10,
                           "rho":0.0023769,
                           "alpha": 0}
-            total_results = self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state)
+            return self.solve(aero_state,control_state,prop_state,filename)
 
         if filename:
             results = {
-- 
2.43.0


From e9411eaa1228c7d854bea09fac22ae8520a857b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 06/32] fix: stall_airspeed without aero_state passes self
 twice

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 40766f8..34fe8c1 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -676,7 +676,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(self, weight, aero_state, control_state, prop_state)
+                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, error = error)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
-- 
2.43.0


From 355754cc3a485d53fee1118399d08f5fba4648f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 07/32] fix: control_derivatives and derivatives raise
 AttributeError without aero_state

---
 machup/MU.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 34fe8c1..e41521c 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -993,6 +993,10 @@ class MachUp:
         """
         cont_deriv = {}
 
+        if not aero_state:
+            aero_state = {"V_mag":10,
+                          "rho":0.0023769}
+
         if control_state:
             control_state = control_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
-- 
2.43.0


From 6f48cb69efe1aa67dd4dd0795be020a2c79f7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 08/32] fix: pitch_trim drops filename and error when a state
 is omitted

---
 machup/MU.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index e41521c..983ab6a 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1283,12 +1283,12 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         elif control_state:
             aero_state = {"V_mag":10,
                           "rho":0.0023769}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         else:
             aero_state = {"V_mag":10,
@@ -1297,7 +1297,7 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
     def _lift_slope(self,aero_state = None, control_state = None, prop_state = None):
         delta = 0.25
-- 
2.43.0


From dabe67a9d0ac725a85a620ecfef2da1932786ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 09/32] fix: target_lift drops filename and error when
 aero_state is omitted

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 983ab6a..eea2199 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1172,7 +1172,7 @@ class MachUp:
                           "rho":0.0023769,
                           "alpha": 0}
 
-            target_state = self.target_lift(L_target, aero_state, control_state, prop_state)
+            return self.target_lift(L_target, aero_state, control_state, prop_state, filename, error)
 
         if filename:
             with open(filename, 'w') as outfile:
-- 
2.43.0


From 03e24d338173463107beff84c4ea0859889896f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 10/32] fix: target_lift needs alpha in aero_state and fails
 when it is -0.2

---
 machup/MU.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index eea2199..52beda0 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1133,8 +1133,10 @@ class MachUp:
         if aero_state:
             aero0 = aero_state.copy()
             aero1 = aero_state.copy()
-            x0 = aero0["alpha"] #alpha guess
+            x0 = aero0.get("alpha",0.) #alpha guess
             x1 = (x0*1.5)+0.1
+            if abs(x1-x0) < 1E-3: #guesses must differ
+                x1 = x0+0.1
             aero0["alpha"] = x0
             aero1["alpha"] = x1
             FM0 = self.solve(aero0,control_state,prop_state)
-- 
2.43.0


From 9409d29d5d2323d7b84eba666323dc34b52298d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 11/32] fix: distributions leaves its output file open,
 truncated or appended to old content

---
 machup/MU.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 52beda0..adc6020 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -325,7 +325,6 @@ class MachUp:
                 np.savetxt(filename,ab,fmt= format_string,header = wing_header)
 
             if self.myairplane._props:
-                distrib_file = open(filename, 'ab')
                 pd = prop_distributions
 
                 prop_header = "\n\nPropellerDistributions \n{:<16}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}".format(
@@ -361,10 +360,11 @@ class MachUp:
 
 
                 format_string = "%-18s %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e"
-                np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header)
+                with open(filename, 'ab' if self.myairplane._wings else 'wb') as distrib_file:
+                    np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header)
             if filename[-4:] == "json":
-                rawtxtfile = open(filename, "r+")
-                data = rawtxtfile.read()
+                with open(filename, "r") as rawtxtfile:
+                    data = rawtxtfile.read()
                 data = data.replace("\n", "newline")
                 output = {"data":data}
                 with open(filename, 'w') as outfile:
-- 
2.43.0


From cbd348e50a44d4ef65460c21c6d10b8ca59cf489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 12/32] fix: LLModel returns its internal results and grid
 arrays

---
 machup/llmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index e2a70ce..6567999 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -310,7 +310,7 @@ class LLModel:
             self._setup_linear_matrices()
             self._solve_linear_system()
             self._forces_and_moments()
-            return self._results
+            return {part: dict(FM) for part, FM in self._results.items()}
         else:
             raise RuntimeError("solver type not yet supported")
 
@@ -627,7 +627,7 @@ class LLModel:
         distributions["section_Cm"] = self.section_cm
         distributions["section_CD_parasitic"] = self.section_cd
         distributions["section_alpha_L0"] = self._grid.get_zero_lift_alpha()
-        return distributions
+        return {key: np.copy(value) for key, value in distributions.items()}
 
 
     def _find_stall_location(self):
-- 
2.43.0


From e470ad1c020e1ccb51a9b8b73ecbb81c3f058907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 13/32] fix: cg_location ignores a coordinate of zero

---
 machup/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 3e0ad27..ab53418 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -383,11 +383,11 @@ class Airplane:
             The updated z-coordinate of the center of gravity.
 
         """
-        if x_coord:
+        if x_coord is not None:
             self._cg_loc[0] = x_coord
-        if y_coord:
+        if y_coord is not None:
             self._cg_loc[1] = y_coord
-        if z_coord:
+        if z_coord is not None:
             self._cg_loc[2] = z_coord
 
     def set_reference_lengths(self, lateral = None, longitudinal = None):
-- 
2.43.0


From 7b41a5ed373310cf6568a443d9f697e3fc479227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 14/32] fix: airplanes built through the API have no units
 attribute

---
 machup/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machup/geometry.py b/machup/geometry.py
index ab53418..ae1ec93 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -68,6 +68,7 @@ class Airplane:
         self._cg_loc = np.zeros(3)
         self._long_ref = None
         self._lat_ref = None
+        self._units = None
         self._position = position
         self._connections = {}
 
-- 
2.43.0


From df144cd83e56f80c9ee5436ea0fb7312a09b8e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 15/32] fix: propeller induced angles depend on the previous
 operating point

---
 machup/propmodel.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 91c8379..5dd1c92 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -378,9 +378,8 @@ class PropModel:
         self._einf = np.arctan2(self._J, (m.pi*self._zeta))
 
         
-        #initial guess for iterative solution of ei if not previously solved
-        if not np.any(self._ei):
-            self._ei = self._beta-self._einf
+        #initial guess for iterative solution of ei
+        self._ei = self._beta-self._einf
 
         #set constant values for ei solver
         self._ei_func_a = (self._chatb/(8*self._zeta))
-- 
2.43.0


From fef81ec2e5d6c5c43857c04c992b2b96b15236a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:11 +0000
Subject: [PATCH 16/32] fix: propeller speed search starts from the previous,
 possibly invalid, speed

---
 machup/propmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 5dd1c92..69858a8 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -475,7 +475,7 @@ class PropModel:
         self._J = self._Vinf/(self._rot_per_sec*self._d)
 
     def _find_rot_rate_power(self, error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
+        x0 = 15. #get a better guess
         x1 = x0*1.5
         y0 = self._zero_power_difference(x0)
         if abs(y0)<error:
@@ -501,7 +501,7 @@ class PropModel:
         return prop_power-self._brake_power
 
     def _find_rot_rate_motor(self,error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
+        x0 = 15. #get a better guess
         x1 = x0*1.5
         y0 = self._zero_torque_difference(x0)
         if abs(y0)<error:
-- 
2.43.0


From 9570d538841166df3480228a0f397515456c09ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:11 +0000
Subject: [PATCH 17/32] fix: induced angle iteration can run forever

---
 machup/propmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 69858a8..7a9ee38 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -440,6 +440,8 @@ class PropModel:
             if i>50 and loc[0].size<3:
                 #print("Ei convergence issues @ J=",self._J)
                 return x2
+            if i>500:
+                raise RuntimeError("Unable to converge on propeller induced angles")
             if loc[0].size == 0:
                 return x2
 
-- 
2.43.0


From ea4702bff95cf7dce907f69dd1afe06fb9f1cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:45 +0000
Subject: [PATCH 18/32] fix: propeller speed searches never end when they
 cannot meet an absolute tolerance

---
 machup/propmodel.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 7a9ee38..f228f82 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -483,12 +483,18 @@ class PropModel:
         if abs(y0)<error:
             return x0
         y1 = self._zero_power_difference(x1)
+        iters = 0
         while True:
+            if y1 == 0.:
+                return x1
             #new guess based on secant method
             x2 = x1-((y1*(x1-x0))/(y1-y0))
             #if solution has converged, return results
-            if abs(x2-x1)<error:
+            if abs(x2-x1)<100*error*max(1.,abs(x2)):
                 return x2
+            iters += 1
+            if iters>100 or not np.isfinite(x2):
+                raise RuntimeError("Unable to find propeller speed for given brake power")
             #set variables for next iteration
             x0=x1
             y0=y1
@@ -509,12 +515,18 @@ class PropModel:
         if abs(y0)<error:
             return x0
         y1 = self._zero_torque_difference(x1)
+        iters = 0
         while True:
+            if y1 == 0.:
+                return x1
             #new guess based on secant method
             x2 = x1-((y1*(x1-x0))/(y1-y0))
             #if solution has converged, return results
-            if abs(x2-x1)<error:
+            if abs(x2-x1)<100*error*max(1.,abs(x2)):
                 return x2
+            iters += 1
+            if iters>100 or not np.isfinite(x2):
+                raise RuntimeError("Unable to find propeller speed for given throttle")
             #set variables for next iteration
             x0=x1
             y0=y1
-- 
2.43.0


From 7162caff1a446e460d75a6343a91c6f2288c32d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:45 +0000
Subject: [PATCH 19/32] fix: stall_onset never ends when no section reaches its
 maximum lift

---
 machup/MU.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index adc6020..59b5838 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -576,6 +576,12 @@ class MachUp:
                         stall_info["lift"] = results["FL"]
                         break
                     a+=0.1
+                    if a>90.:
+                        if filename:
+                            stall_info = {"error":"unstallable"}
+                            break
+                        else:
+                            raise RuntimeError("Unable to find stall onset below 90 degrees angle of attack")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
-- 
2.43.0


From f2279c20dc97420d4d93980b391c0b7572a21b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:45 +0000
Subject: [PATCH 20/32] fix: stall_airspeed never ends when its search does not
 converge

---
 machup/MU.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 59b5838..6278057 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -661,6 +661,7 @@ class MachUp:
                 y0 = stall_info0["lift"]-weight #difference between max lift and weight
                 y1 = stall_info1["lift"]-weight
 
+                iters = 0
                 while True:
                     #new guess based on secant method
                     x2 = x1-((y1*(x1-x0))/(y1-y0))
@@ -678,6 +679,13 @@ class MachUp:
                     aero1["V_mag"] = x1
                     stall_info1 = self.stall_onset(aero1,control_state,prop_state)
                     y1=stall_info1["lift"]-weight
+                    iters += 1
+                    if iters>50:
+                        if filename:
+                            stall_airspeed_info = {"error":"unstallable"}
+                            break
+                        else:
+                            raise RuntimeError("Unable to find stall airspeed")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
-- 
2.43.0


From 5f08c1163564592a3c24fee1ac7f4a94ef1f4b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 21/32] fix: building a propeller model adds an airfoil to the
 airplane's propeller

---
 machup/propmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index f228f82..68eb82b 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -2,6 +2,7 @@ import numpy as np
 from scipy.interpolate import interp1d
 from scipy.integrate import simps, ode,trapz
 import math as m
+from machup.geometry import Airfoil
 import matplotlib.pyplot as plt
 from scipy import optimize as opt
 
@@ -77,7 +78,7 @@ class PropModel:
 
         airfoils = self._prop.get_airfoils()
         if len(airfoils) == 0:
-            self._prop.airfoil()
+            airfoils = {'NACA2412': Airfoil()}
 
         if len(airfoils) == 1:
             af = list(airfoils.values())[0]
-- 
2.43.0


From 627fd3c439b3e3433b301336a66220efed8e3417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 22/32] fix: propeller position follows later changes of the
 caller's list

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index ae1ec93..d82f1ba 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -1051,7 +1051,7 @@ class Prop:
 
 
     def _unpack(self, prop_dict):
-        self._position = prop_dict.get("position", [0.,0.,0.])
+        self._position = list(prop_dict.get("position", [0.,0.,0.]))
         self._orientation = prop_dict.get("orientation", [0.,0.])
         self._nodes = prop_dict.get("nodes", 100)
         self._diameter = prop_dict.get("diameter", 1.0)
-- 
2.43.0


From 16b3c3d280bf0e62bdb7f7f6a3336907b2a91bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:32 +0000
Subject: [PATCH 23/32] fix: propeller section coefficients read uninitialised
 memory

At an angle of attack of exactly zero, exactly at stall, or undefined, the
lift and drag coefficients of a blade section were never assigned, so
whatever was left in the allocated memory was used.
---
 machup/propmodel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 68eb82b..2598522 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1284,7 +1284,7 @@ class PropModel:
 
     def _get_CL(self,alpha):
 
-        CL = np.empty_like(alpha)
+        CL = 0.*alpha
         neg = np.where(alpha<0)
         pos = np.where(alpha>0)
 
@@ -1318,12 +1318,12 @@ class PropModel:
         return CD
 
     def _CD_Viterna(self,CL,alpha):
-        CD = np.empty_like(alpha)
+        CD = 0.*alpha
         ca = np.cos(alpha)
         sa = np.sin(alpha)
         pre_stall = np.where((alpha<self._delay_a_stall) & (alpha>self._delay_a_stall_neg))
-        stall_pos = np.where(alpha>self._delay_a_stall)
-        stall_neg = np.where(alpha<self._delay_a_stall_neg)
+        stall_pos = np.where(alpha>=self._delay_a_stall)
+        stall_neg = np.where(alpha<=self._delay_a_stall_neg)
         CD[pre_stall] = self._CD_0[pre_stall]+self._CD_L[pre_stall]*CL[pre_stall]+self._CD_L2[pre_stall]*CL[pre_stall]*CL[pre_stall]
         CD[stall_pos] = self._B1*sa[stall_pos]*sa[stall_pos]+self._B2[stall_pos]*ca[stall_pos]
         CD[stall_neg] = self._B1*np.sin(-alpha[stall_neg])**2+self._B2_neg[stall_neg]*np.cos(-alpha[stall_neg])
-- 
2.43.0


From e07aef60f76fe748e4a1665d6b6cbdede4a484b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:22 +0000
Subject: [PATCH 24/32] fix: PropsSolver.solve without an aero_state raises
 AttributeError

---
 machup/propssolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 6853958..b078e69 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -109,6 +109,7 @@ class PropsSolver:
         return self._results
 
     def _rotate_aero_forces(self,F,aero_state):
+        aero_state = aero_state or {}
         a = m.radians(aero_state.get("alpha",0.))
         b = m.radians(aero_state.get("beta",0.))
         ca = m.cos(a)
-- 
2.43.0


From e340166dbe8917b1a5fed91b6ce139a6a3ea90a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:02 +0000
Subject: [PATCH 25/32] fix: propeller and airplane keep references to the
 caller's lists and dictionaries

---
 machup/geometry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index d82f1ba..c3d16a2 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -69,7 +69,7 @@ class Airplane:
         self._long_ref = None
         self._lat_ref = None
         self._units = None
-        self._position = position
+        self._position = position if position is None else list(position)
         self._connections = {}
 
         if inputfile:
@@ -1052,15 +1052,15 @@ class Prop:
 
     def _unpack(self, prop_dict):
         self._position = list(prop_dict.get("position", [0.,0.,0.]))
-        self._orientation = prop_dict.get("orientation", [0.,0.])
+        self._orientation = list(prop_dict.get("orientation", [0.,0.]))
         self._nodes = prop_dict.get("nodes", 100)
         self._diameter = prop_dict.get("diameter", 1.0)
         self._hub_diameter = prop_dict.get("hub_diameter", 0.1*self._diameter)
         self._blades = prop_dict.get("num_of_blades", 2)
         self._rot_dir = prop_dict.get("rot_dir", 1.)
-        self._pitch_info = prop_dict.get("pitch_info",{"type":"default"})
-        self._chord_info = prop_dict.get("chord_info",{"type":"default"})
-        self._motor_info = prop_dict.get("electric_motor",{})
+        self._pitch_info = dict(prop_dict.get("pitch_info",{"type":"default"}))
+        self._chord_info = dict(prop_dict.get("chord_info",{"type":"default"}))
+        self._motor_info = dict(prop_dict.get("electric_motor",{}))
         '''
         self._root_airfoil = Airfoil()
         self._tip_airfoil = Airfoil()
-- 
2.43.0


From 0cc7ddc5a76e61fd6d5470eaed83fe223badaac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:02 +0000
Subject: [PATCH 26/32] fix: STL export reuses the previous section's profile
 for NACA names that are not four digits

---
 machup/outputstl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index bb24145..7503902 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -43,15 +43,15 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             left_name = left_airfoil.get_name()
             right_name = right_airfoil.get_name()
         
+            left_NACA = '2412'
             if left_name[:4] == 'NACA' or left_name[:4] == 'naca':
                 if len(left_name) == 8:
                     left_NACA = left_name[4:]
-            else: left_NACA = '2412'
                     
+            right_NACA = '2412'
             if right_name[:4] == 'NACA' or right_name[:4] == 'naca':
                 if len(right_name) == 8:
                     right_NACA = right_name[4:]
-            else: right_NACA = '2412'
 
             left_X,left_Z = plotNACA(left_NACA,n)
             right_X,right_Z = plotNACA(right_NACA,n)
@@ -108,10 +108,10 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
                 af_loc.append(airfoil[0])
                 af = airfoil[1]
                 name = af.get_name()
+                NACA = '2412'
                 if name[:4] == 'NACA' or name[:4] == 'naca':
                     if len(name) == 8:
                         NACA = name[4:]
-                else: NACA = '2412'
                 X,Z = plotNACA(NACA,n)
                 X_list.append(X)
                 Z_list.append(Z)
-- 
2.43.0


From 4ef2885ec9f206581b4ce913340731979f187720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:34 +0000
Subject: [PATCH 27/32] fix: target_lift reports an angle that does not produce
 the lift after a small secant step

---
 machup/MU.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 6278057..6cbc908 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1160,14 +1160,20 @@ class MachUp:
             y1 = FM1["FL"]-L_target
 
             iters = 0
+            y_scale = max(abs(y0),abs(y1))
             while True:
                 #new guess based on secant method
                 x2 = x1-((y1*(x1-x0))/(y1-y0))
                 #if solution has converged, return results
                 if abs(x2-x1)<error:
-                    alpha = x2
-                    target_state = {"alpha":alpha}
-                    break
+                    aero1["alpha"] = x2
+                    FM2 = self.solve(aero1,control_state,prop_state)
+                    y2 = FM2["FL"]-L_target
+                    #a small step is only convergence if it also closes in on the lift
+                    if abs(y2)<=max(0.5*abs(y1),1E-10*y_scale):
+                        alpha = x2
+                        target_state = {"alpha":alpha}
+                        break
 
                 #set variables for next iteration
                 x0=x1
-- 
2.43.0


From 63e46ba0f4fd9d1804ad3e22166988fc8c3c5988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 28/32] fix: stall_onset without an aero_state raises instead
 of writing the error document

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 6cbc908..fed377e 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -586,7 +586,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_info = self.stall_onset(aero_state,control_state,prop_state)
+                return self.stall_onset(aero_state,control_state,prop_state,filename)
 
         else:
             if filename:
-- 
2.43.0


From bfc047974df4dc8be311f6f02f1155436636077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 29/32] fix: stall_airspeed without an aero_state raises
 instead of writing the error document

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index fed377e..7a8fa42 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -690,7 +690,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, error = error)
+                return self.stall_airspeed(weight, aero_state, control_state, prop_state, filename, error)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
-- 
2.43.0


From 56accc4324cb329aa6e8725b31bd7bbfa6dbef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:25 +0000
Subject: [PATCH 30/32] fix: distributions file cuts component names to 18
 characters

---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 7a8fa42..87b6a6b 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -282,7 +282,7 @@ class MachUp:
                               'Name','ControlPoint(x)','ControlPoint(y)','ControlPoint(z)','Chord','Twist(deg)','Dihedral(deg)','Sweep(deg)',
                               'Area','Alpha(deg)','Force(x)','Force(y)','Force(z)','SectionCL','SectionCm','SectionCDParasitic','SectionAlpha_L0',
                               'SectionCL_ref')
-                item_types = [('name','U18'),
+                item_types = [('name',object),
                               ('cpx', 'float'),
                               ('cpy', 'float'),
                               ('cpz', 'float'),
@@ -331,7 +331,7 @@ class MachUp:
                               'Name','RadialPosition','Chord','Pitch(deg)','AdvangeAngle(deg)','InducedAngle(deg)',
                               'Alpha(deg)','SectionCL','SectionCD','InducedVelocity,Vi','Vi(Axial)','Vi(Tangential)')
 
-                item_types = [('name','U18'),
+                item_types = [('name',object),
                               ('rps', 'float'),
                               ('crd', 'float'),
                               ('pit', 'float'),
-- 
2.43.0


From 9e4193e31b874ffb6dbd52c770956f7eeeda825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:14 +0000
Subject: [PATCH 31/32] fix: distributions file mixes encodings when component
 names are not ASCII

---
 machup/MU.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 87b6a6b..8466abe 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -322,7 +322,7 @@ class MachUp:
                 ab['scr'] = wd["section_CL_ref"]
 
                 format_string = "%-18s %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e"
-                np.savetxt(filename,ab,fmt= format_string,header = wing_header)
+                np.savetxt(filename,ab,fmt= format_string,header = wing_header,encoding="utf-8")
 
             if self.myairplane._props:
                 pd = prop_distributions
@@ -361,9 +361,9 @@ class MachUp:
 
                 format_string = "%-18s %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e"
                 with open(filename, 'ab' if self.myairplane._wings else 'wb') as distrib_file:
-                    np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header)
+                    np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header,encoding="utf-8")
             if filename[-4:] == "json":
-                with open(filename, "r") as rawtxtfile:
+                with open(filename, "r", encoding="utf-8") as rawtxtfile:
                     data = rawtxtfile.read()
                 data = data.replace("\n", "newline")
                 output = {"data":data}
-- 
2.43.0


From 8e23f29ca39eae13ddf3bea5e92f17c12f9a2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:46 +0000
Subject: [PATCH 32/32] fix: input file is read in the locale's encoding
 instead of UTF-8

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index c3d16a2..33aad60 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -78,7 +78,7 @@ class Airplane:
     def _buildfrominputfile(self, filepath):
         # Construct airplane from information in .json file
         machup.helpers.check_valid_filepath(filepath)
-        with open(filepath) as file:
+        with open(filepath, encoding="utf-8") as file:
             data = json.load(file, object_pairs_hook=OrderedDict)
             self.name = data["plane"]["name"]
             self.cg_location(data["plane"]["CGx"],
-- 
2.43.0

