From 1296195ae72d137a1dd34f09175803db43a6f464 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:56:45 +0000
Subject: [PATCH 01/39] fix: MachUp.solve no longer adds local_state to the
 caller's aero_state

With propellers present solve() stored the propwash velocity field in the
dictionary it was given. A later solve of a wing-only model (or of
LLModel directly) with the same dictionary then silently used that stale
field instead of V_mag, alpha, beta and rho.
---
 machup/MU.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 55eb927..e290378 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -152,7 +152,8 @@ class MachUp:
             if self.myairplane._props:
                 prop_results,velocity_array = self.myprops.solve(aero_state,prop_state)
                 if velocity_array is not None:
-                    aero_state["local_state"] = velocity_array
+                    # copied so that the caller's dictionary is not altered
+                    aero_state = dict(aero_state, local_state = velocity_array)
 
             if self.myairplane._wings:
                 wing_results = self.myllmodel.solve("linear",aero_state = aero_state,control_state = control_state)
-- 
2.43.0


From 9ef117ec2f6d562c942f93613f3e8ed9385ac385 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:56:45 +0000
Subject: [PATCH 02/39] fix: MachUp.solve writes its results file when
 aero_state is omitted

The filename was handled after the recursive call for the default state,
where wing_results and prop_results do not exist (UnboundLocalError).
---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index e290378..e78b953 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -177,7 +177,7 @@ class MachUp:
             aero_state = {"V_mag":10,
                           "rho":0.0023769,
                           "alpha": 0}
-            total_results = self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state)
+            return self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state, filename = filename)
 
         if filename:
             results = {
-- 
2.43.0


From 14359e4a5e7a5c23769fb999c0f9e46f4f0a37c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:56:45 +0000
Subject: [PATCH 03/39] fix: LLModel.solve without a control_state uses zero
 deflections

The documentation says that all control surfaces are at zero deflection
when no control_state is given, but the deflections of the previous
solve() were kept.
---
 machup/llmodel.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 812c189..e077f32 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -231,19 +231,20 @@ class LLModel:
 
     def _process_control_state(self, state):
         # Takes state data from state and constructs necessary arrays
-        if state:
-            delta_a = state.get("aileron", 0.)
-            delta_e = state.get("elevator", 0.)
-            delta_r = state.get("rudder", 0.)
-            delta_f = state.get("flap", 0.)
-            mix_a, mix_e, mix_r, mix_f = self._grid.get_control_mix()
-
-            self._control_data["delta_flap"] = (delta_a*mix_a +
-                                                delta_e*mix_e +
-                                                delta_r*mix_r +
-                                                delta_f*mix_f)*np.pi/180.
-
-            self._compute_deflection_efficiency()
+        if not state:
+            state = {}
+        delta_a = state.get("aileron", 0.)
+        delta_e = state.get("elevator", 0.)
+        delta_r = state.get("rudder", 0.)
+        delta_f = state.get("flap", 0.)
+        mix_a, mix_e, mix_r, mix_f = self._grid.get_control_mix()
+
+        self._control_data["delta_flap"] = (delta_a*mix_a +
+                                            delta_e*mix_e +
+                                            delta_r*mix_r +
+                                            delta_f*mix_f)*np.pi/180.
+
+        self._compute_deflection_efficiency()
 
     def _compute_deflection_efficiency(self):
         # Compute flap deflection efficiency using linear fit of
-- 
2.43.0


From 9dc90cb89426203997370ad71339f46591ef9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:56:45 +0000
Subject: [PATCH 04/39] fix: LLModel.solve without an aero_state fully resets
 the flow

Only the x components were set, so the sideslip, angle of attack, rotation
and density of the previous solve() leaked into the default state.
---
 machup/llmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index e077f32..5fefcd9 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -210,8 +210,9 @@ class LLModel:
 
         else:
             # assume uniform flow in -x direction for now
-            v_local[:, 0] = -10.
-            u_inf[0] = -1.
+            v_local[:] = [-10., 0., 0.]
+            u_inf[:] = [-1., 0., 0.]
+            rho_local[:] = 1.
 
     def _superimpose_rotation(self, state):
         # Calculate velocities due to rotation and superimpose them
-- 
2.43.0


From baeac792e5a94c0eb1d3f19cc3af62b1fdea4b2d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:56:45 +0000
Subject: [PATCH 05/39] fix: LLModel.solve returns a new results dictionary for
 every call

All calls returned the same dictionary, so results kept by the caller
changed when the model was solved again.
---
 machup/llmodel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 5fefcd9..e7d3bd7 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -301,6 +301,14 @@ class LLModel:
         self._process_aero_state(aero_state)
         self._process_control_state(control_state)
 
+        # start from fresh dictionaries so that the results returned by an
+        # earlier call are not overwritten
+        self._results = {
+            'inviscid': {},
+            'viscous': {},
+            'total': {}
+        }
+
         if stype == "linear":
             self._calc_induced_velocities()
             self._setup_linear_matrices()
-- 
2.43.0


From 06426e4b7b4ed59adca63f0b5a782139134e8812 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:56:45 +0000
Subject: [PATCH 06/39] fix: damping_derivatives restores the yaw rate it
 perturbed

It put the caller's pitch rate back as yaw rate.
---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index e78b953..759c1e8 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -939,7 +939,7 @@ class MachUp:
             damp_deriv["Cl_rbar"] = (forw["MX"]-back["MX"])/non_dim/self.lat_ref
             damp_deriv["Cm_rbar"] = (forw["MY"]-back["MY"])/non_dim/self.long_ref
             damp_deriv["Cn_rbar"] = (forw["MZ"]-back["MZ"])/non_dim/self.lat_ref
-            aero_state["yaw_rate"] = q0
+            aero_state["yaw_rate"] = r0
 
         else:
             aero_state = {"V_mag":10,
-- 
2.43.0


From dc8c407945fce5706bee5def7b7d71c2b3c91827 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:56:45 +0000
Subject: [PATCH 07/39] fix: find_aero_center, stall_onset and pitch_trim leave
 their inputs alone

They left the last angle of attack (and elevator deflection) they tried in
the caller's dictionaries, so the next analysis run with those dictionaries
was carried out at a different state than the one the user specified.
---
 machup/MU.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 759c1e8..8e9ca52 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -416,6 +416,7 @@ class MachUp:
         """
 
         if aero_state:
+            aero_state = aero_state.copy()
             ao = aero_state.get("alpha",0.)
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
             Normal = []
@@ -563,7 +564,7 @@ class MachUp:
         """
         if self.myairplane._wings:
             if aero_state:
-                a0 = aero_state.get("alpha",0.) 
+                aero_state = aero_state.copy()
                 a = 0.
                 while True:
                     aero_state["alpha"] = a
@@ -1225,6 +1226,8 @@ class MachUp:
 
         """
         if aero_state and control_state:
+            aero_state = aero_state.copy()
+            control_state = control_state.copy()
 
             a, de = 0.,0.
             iters = 0.
-- 
2.43.0


From 285b4d471a84a5f92a653b7f2b6975fd808c4ebf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:56:45 +0000
Subject: [PATCH 08/39] fix: stall_airspeed works without an aero_state

self was passed twice (TypeError).
---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 8e9ca52..7ffb055 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -675,7 +675,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(self, weight, aero_state, control_state, prop_state)
+                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, error = error)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
-- 
2.43.0


From c5b664db408f2637338e8c90876e9f9c3a6d83fd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:56:54 +0000
Subject: [PATCH 09/39] fix: control_derivatives works without an aero_state

aero_state.get was called on None, which also broke derivatives().
---
 machup/MU.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 7ffb055..ede97e0 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -990,6 +990,10 @@ class MachUp:
         """
         cont_deriv = {}
 
+        if not aero_state:
+            aero_state = {"V_mag":10,
+                          "rho":0.0023769,
+                          "alpha": 0}
         if control_state:
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
-- 
2.43.0


From b782afee2f62dc5bacd783017e98a3d22b9b1e69 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:56:54 +0000
Subject: [PATCH 10/39] fix: target_lift accepts every starting angle of attack

A missing "alpha" raised KeyError although it is optional everywhere else,
alpha = -0.2 made both secant guesses coincide (division by zero followed
by "Unable to produce desired lift"), and the filename and error arguments
were dropped when no aero_state was given.
---
 machup/MU.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index ede97e0..c9b3e74 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1129,8 +1129,10 @@ class MachUp:
         if aero_state:
             aero0 = aero_state.copy()
             aero1 = aero_state.copy()
-            x0 = aero0["alpha"] #alpha guess
+            x0 = aero0.get("alpha",0.) #alpha guess
             x1 = (x0*1.5)+0.1
+            if abs(x1-x0)<0.05: #the secant method needs two distinct guesses
+                x1 = x0+0.1
             aero0["alpha"] = x0
             aero1["alpha"] = x1
             FM0 = self.solve(aero0,control_state,prop_state)
@@ -1168,7 +1170,7 @@ class MachUp:
                           "rho":0.0023769,
                           "alpha": 0}
 
-            target_state = self.target_lift(L_target, aero_state, control_state, prop_state)
+            return self.target_lift(L_target, aero_state, control_state, prop_state, filename, error)
 
         if filename:
             with open(filename, 'w') as outfile:
-- 
2.43.0


From ccaf278b3431685816fb0a08cdb6a1c46c136c8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:56:54 +0000
Subject: [PATCH 11/39] fix: pitch_trim honours filename and error for default
 states

They were dropped whenever aero_state or control_state was omitted, and
the error state written to the file was not returned.
---
 machup/MU.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index c9b3e74..24c75dd 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1256,7 +1256,7 @@ class MachUp:
                         trim_state = {'error':'no_elevator'}
                         with open(filename, 'w') as outfile:
                             json.dump(trim_state, outfile,indent = 4)
-                        break
+                        return trim_state
                     else:
                         raise RuntimeError("Unable to trim aircraft because there is no elevator.")
 
@@ -1272,7 +1272,7 @@ class MachUp:
                         trim_state = {'error':'untrimmable'}
                         with open(filename, 'w') as outfile:
                             json.dump(trim_state, outfile,indent = 4)
-                        break
+                        return trim_state
                     else:
                         raise RuntimeError("Unable to trim aircraft. Consider increasing elevator size or moving center of gravity")
 
@@ -1281,12 +1281,12 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         elif control_state:
             aero_state = {"V_mag":10,
                           "rho":0.0023769}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         else:
             aero_state = {"V_mag":10,
@@ -1295,7 +1295,7 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
     def _lift_slope(self,aero_state = None, control_state = None, prop_state = None):
         delta = 0.25
-- 
2.43.0


From d5cfbeef5b99931b1967e974962720ec68a82aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:57:24 +0000
Subject: [PATCH 12/39] fix: stall_onset terminates for models that never stall

The angle of attack was increased forever, e.g. for a model that only has
a vertical stabilizer.
---
 machup/MU.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 24c75dd..c2c30c3 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -575,6 +575,12 @@ class MachUp:
                         stall_info["lift"] = results["FL"]
                         break
                     a+=0.1
+                    if a>90.:
+                        if filename:
+                            stall_info = {"error":"unstallable"}
+                            break
+                        else:
+                            raise RuntimeError("Current model does not stall at any angle of attack up to 90 degrees")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
-- 
2.43.0


From 6f4462bba600e625e4389216e988b3e8957f6be0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:57:24 +0000
Subject: [PATCH 13/39] fix: write the wing section angle of attack in degrees

The column of the distributions file is labelled Alpha(deg) (and is in
degrees for the propellers) but held radians.
---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index c2c30c3..a108c90 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -311,7 +311,7 @@ class MachUp:
                 ab['dih'] = wd["dihedral"]
                 ab['swp'] = wd["sweep"]
                 ab['are'] = wd["area"]
-                ab['alp'] = wd["alpha"]
+                ab['alp'] = np.degrees(wd["alpha"])
                 ab['f_x'] = wd["forces_xyz"][:,0]
                 ab['f_y'] = wd["forces_xyz"][:,1]
                 ab['f_z'] = wd["forces_xyz"][:,2]
-- 
2.43.0


From f59548e3a9f78ea82a666af61022e9b1bdb5d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:57:24 +0000
Subject: [PATCH 14/39] fix: complete the distributions file before it is read
 back

The file was still open (unflushed) when a .json file was assembled from
it, so propeller rows were lost or appended behind the JSON document. Also
do not append to an older file when the model has no wings.
---
 machup/MU.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index a108c90..d9a8dca 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -325,7 +325,7 @@ class MachUp:
                 np.savetxt(filename,ab,fmt= format_string,header = wing_header)
 
             if self.myairplane._props:
-                distrib_file = open(filename, 'ab')
+                distrib_file = open(filename, 'ab' if self.myairplane._wings else 'wb')
                 pd = prop_distributions
 
                 prop_header = "\n\nPropellerDistributions \n{:<16}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}".format(
@@ -362,6 +362,7 @@ class MachUp:
 
                 format_string = "%-18s %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e"
                 np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header)
+                distrib_file.close()
             if filename[-4:] == "json":
                 rawtxtfile = open(filename, "r+")
                 data = rawtxtfile.read()
-- 
2.43.0


From 7d02bf3c107369c5a152a00160cd4d674de30187 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:57:24 +0000
Subject: [PATCH 15/39] fix: Airplanes with propellers can be built without an
 input file

_units was only set when reading an input file (AttributeError).
---
 machup/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machup/geometry.py b/machup/geometry.py
index 3e0ad27..69f4573 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -69,6 +69,7 @@ class Airplane:
         self._long_ref = None
         self._lat_ref = None
         self._position = position
+        self._units = None
         self._connections = {}
 
         if inputfile:
-- 
2.43.0


From 17e286416441dee39a4c7e2b09867f0854c5a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:57:24 +0000
Subject: [PATCH 16/39] fix: accept zero center of gravity coordinates and
 array positions

cg_location(0.) left the previous coordinate in place and an Airplane
position given as a numpy array raised ValueError.
---
 machup/geometry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 69f4573..b5822d6 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -384,11 +384,11 @@ class Airplane:
             The updated z-coordinate of the center of gravity.
 
         """
-        if x_coord:
+        if x_coord is not None:
             self._cg_loc[0] = x_coord
-        if y_coord:
+        if y_coord is not None:
             self._cg_loc[1] = y_coord
-        if z_coord:
+        if z_coord is not None:
             self._cg_loc[2] = z_coord
 
     def set_reference_lengths(self, lateral = None, longitudinal = None):
@@ -425,8 +425,8 @@ class Airplane:
             Position of Airplane as specified by the user.
         """
         # pylint: disable=unused-argument
-        if self._position:
-            return self._position
+        if self._position is not None:
+            return np.array(self._position)
 
         return np.array([0., 0., 0.])
 
-- 
2.43.0


From 95c2155fbc3241311edf3b0d0874f61199c2305a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:57:24 +0000
Subject: [PATCH 17/39] fix: is_main is optional in input files

Input files without it (such as those used by the tests) raised KeyError;
use the same default as Airplane.add_wing.
---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index b5822d6..d12e873 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -128,7 +128,7 @@ class Airplane:
                              position=[wing_dict["connect"]["dx"],
                                        wing_dict["connect"]["dy"],
                                        wing_dict["connect"]["dz"]],
-                             is_main = wing_dict["is_main"],
+                             is_main = wing_dict.get("is_main",1),
                              yoffset=wing_dict["connect"]["yoffset"],
                              semispan=wing_dict["span"],
                              sweep=wing_dict["sweep"],
-- 
2.43.0


From eeaf4f2671a15fe6902f5c7d7e047df9430e3291 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:57:24 +0000
Subject: [PATCH 18/39] fix: rotation direction 0 means clockwise as documented

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index d12e873..dae3910 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -1187,7 +1187,7 @@ class Prop:
         """
         if self._rot_dir == "CCW" or self._rot_dir =="ccw" or self._rot_dir == 1.:
             return 1.
-        elif self._rot_dir == "CW" or self._rot_dir =="cw" or self._rot_dir == -1.:
+        elif self._rot_dir == "CW" or self._rot_dir =="cw" or self._rot_dir == -1. or self._rot_dir == 0:
             return -1
         else: 
             return 1.
-- 
2.43.0


From 5fb65325105b76da18f7d598ec00ed0f2e382c3c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:57:24 +0000
Subject: [PATCH 19/39] fix: total thrust and torque include every propeller

Only the values of the last propeller were reported.
---
 machup/propssolver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 6853958..8182b28 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -70,6 +70,8 @@ class PropsSolver:
     def _calc_forces(self,aero_state = None,prop_state = None):
         self._F = np.zeros(3)
         self._M = np.zeros(3)
+        thrust = 0.
+        torque = 0.
 
         self._results = {
             "total":{}
@@ -91,6 +93,8 @@ class PropsSolver:
             F,M,T,l = pm._calc_forces()
             self._F += F
             self._M += M
+            thrust += T
+            torque += l
 
         lift,drag,side = self._rotate_aero_forces(self._F,aero_state)
 
@@ -103,8 +107,8 @@ class PropsSolver:
         self._results["total"]['MX'] = self._M[0]
         self._results["total"]['MY'] = self._M[1]
         self._results["total"]['MZ'] = self._M[2]
-        self._results["total"]['Thrust'] = T
-        self._results["total"]['Torque'] = l
+        self._results["total"]['Thrust'] = thrust
+        self._results["total"]['Torque'] = torque
 
         return self._results
 
-- 
2.43.0


From 681d1f5dec79f4f0b5b03102f4eaa6da930dfa71 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:57:24 +0000
Subject: [PATCH 20/39] fix: draw NACA airfoils without four digits as NACA
 2412

A name such as "NACA23012" left the section of the previous airfoil in
place, or raised UnboundLocalError for the first one.
---
 machup/outputstl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index bb24145..694c205 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -43,15 +43,15 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             left_name = left_airfoil.get_name()
             right_name = right_airfoil.get_name()
         
+            left_NACA = '2412'
             if left_name[:4] == 'NACA' or left_name[:4] == 'naca':
                 if len(left_name) == 8:
                     left_NACA = left_name[4:]
-            else: left_NACA = '2412'
-                    
+
+            right_NACA = '2412'
             if right_name[:4] == 'NACA' or right_name[:4] == 'naca':
                 if len(right_name) == 8:
                     right_NACA = right_name[4:]
-            else: right_NACA = '2412'
 
             left_X,left_Z = plotNACA(left_NACA,n)
             right_X,right_Z = plotNACA(right_NACA,n)
@@ -108,10 +108,10 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
                 af_loc.append(airfoil[0])
                 af = airfoil[1]
                 name = af.get_name()
+                NACA = '2412'
                 if name[:4] == 'NACA' or name[:4] == 'naca':
                     if len(name) == 8:
                         NACA = name[4:]
-                else: NACA = '2412'
                 X,Z = plotNACA(NACA,n)
                 X_list.append(X)
                 Z_list.append(Z)
-- 
2.43.0


From 77b1065d2686febe1b505905bc1cf68612d5a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:59:06 +0000
Subject: [PATCH 21/39] fix: section coefficients of propellers at exactly zero
 angle of attack

Entries with alpha == 0 (which the initial guess for the induced angle
produces) were left uninitialised, as was the drag exactly at stall.
---
 machup/propmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 91c8379..8e9e940 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1270,7 +1270,7 @@ class PropModel:
 
     def _get_CL(self,alpha):
 
-        CL = np.empty_like(alpha)
+        CL = np.zeros_like(alpha)
         neg = np.where(alpha<0)
         pos = np.where(alpha>0)
 
@@ -1307,7 +1307,7 @@ class PropModel:
         CD = np.empty_like(alpha)
         ca = np.cos(alpha)
         sa = np.sin(alpha)
-        pre_stall = np.where((alpha<self._delay_a_stall) & (alpha>self._delay_a_stall_neg))
+        pre_stall = np.where((alpha<=self._delay_a_stall) & (alpha>=self._delay_a_stall_neg))
         stall_pos = np.where(alpha>self._delay_a_stall)
         stall_neg = np.where(alpha<self._delay_a_stall_neg)
         CD[pre_stall] = self._CD_0[pre_stall]+self._CD_L[pre_stall]*CL[pre_stall]+self._CD_L2[pre_stall]*CL[pre_stall]*CL[pre_stall]
-- 
2.43.0


From c9c16592074f8841b19bab492889e43be14860e0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:59:06 +0000
Subject: [PATCH 22/39] fix: propellers that are exactly aligned with the
 freestream

Round off could push the cosine of the incidence angle above one (math
domain error) or leave no direction for the normal force (nan).
---
 machup/propmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 8e9e940..5238e76 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -558,7 +558,8 @@ class PropModel:
             N = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**4)*self._CN_a*angle
             n = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**5)*self._Cn_a*angle
             N_dir = np.cross(np.cross(-self._v_xyz, self._prop_forward),self._prop_forward)
-            N_vec = N_dir/m.sqrt(N_dir[0]**2+N_dir[1]**2+N_dir[2]**2)
+            N_mag = m.sqrt(N_dir[0]**2+N_dir[1]**2+N_dir[2]**2)
+            N_vec = N_dir/N_mag if N_mag>0. else np.zeros(3)
 
         self._T = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**4)*self._CT
         self._l = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**5)*self._Cl*(-self._rot_dir)
@@ -1548,4 +1549,4 @@ class PropModel:
         d,e,f = v2
         dot = a*d+b*e+c*f
         mag = m.sqrt(a*a+b*b+c*c)*m.sqrt(d*d+e*e+f*f)
-        return m.acos(dot/mag)
+        return m.acos(max(-1.,min(1.,dot/mag)))
-- 
2.43.0


From 2ebeeb8b8e5e7b26923c860ce4a9a715cb333ceb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:59:06 +0000
Subject: [PATCH 23/39] fix: wing control points that lie on a propeller axis

The swirl direction was 0/0 there, which made every wing force nan.
---
 machup/propmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 5238e76..e133a2a 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -289,7 +289,9 @@ class PropModel:
         center2point_vec = wing_points-P #vector from point to centerline
         self._center2point_dist = self._vec_mag_mult(center2point_vec) #distance from point to center line
         tangent = np.cross(self._prop_forward,center2point_vec)
-        self._tangent_norm = tangent/self._vec_mag_mult(tangent)[:,None]
+        tangent_mag = self._vec_mag_mult(tangent)
+        tangent_mag[tangent_mag==0.] = 1. #points on the centerline have no tangential direction
+        self._tangent_norm = tangent/tangent_mag[:,None]
 
         self._points_in_stream = np.where((abs(self._center2point_dist)<=(self._d/2))&(self._t<0.))
 
-- 
2.43.0


From 01a82a119ef92cee6c8cbffaf2054eb3166e1ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:59:06 +0000
Subject: [PATCH 24/39] fix: propeller results no longer depend on previously
 solved states

The induced angles of the previous solve() were the initial guess of the
next one, and the iteration stopped when successive residuals were equal
rather than zero, e.g. after two estimates were reset to the same value. A
propeller solved at one advance ratio and then another could report forces
that were off by tens of percent. Start every solution from the same guess
and bisect where the secant steps stall. The iteration is now bounded.
---
 machup/propmodel.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index e133a2a..ed8bacb 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -380,9 +380,8 @@ class PropModel:
         self._einf = np.arctan2(self._J, (m.pi*self._zeta))
 
         
-        #initial guess for iterative solution of ei if not previously solved
-        if not np.any(self._ei):
-            self._ei = self._beta-self._einf
+        #initial guess for iterative solution of ei
+        self._ei = self._beta-self._einf
 
         #set constant values for ei solver
         self._ei_func_a = (self._chatb/(8*self._zeta))
@@ -440,17 +439,30 @@ class PropModel:
             x2[loc] = x1[loc]-((y1[loc]*(x1[loc]-x0[loc]))/(y1[loc]-y0[loc]))
             i+=1
             x2 = self._correct_ei(x2)
-            if i>50 and loc[0].size<3:
-                #print("Ei convergence issues @ J=",self._J)
-                return x2
-            if loc[0].size == 0:
-                return x2
+            if i>50 or loc[0].size == 0:
+                break
 
             x0 = np.copy(x1)
             x1 = np.copy(x2)
             y0 = np.copy(y1)
             y1 = self._ei_function(x1)
 
+        #the secant steps can stall away from a solution (for instance when
+        #successive estimates are reset to the same value). Bisect for those,
+        #ei lies between zero and the angle that results in zero lift
+        stalled = np.logical_not(abs(self._ei_function(x2))<1E-10)
+        if np.any(stalled):
+            x0 = np.zeros_like(x2)
+            x1 = self._beta-self._einf
+            y0 = self._ei_function(x0)
+            for i in range(60):
+                xm = 0.5*(x0+x1)
+                same_side = np.sign(self._ei_function(xm)) == np.sign(y0)
+                x0 = np.where(same_side,xm,x0)
+                x1 = np.where(same_side,x1,xm)
+            x2 = np.where(stalled,0.5*(x0+x1),x2)
+        return x2
+
 
     def _ei_function(self,ei):
         alpha = self._beta-self._einf-ei
-- 
2.43.0


From a1019fdf2a5d1e1df2d4899c2b70fd5df6bf52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:59:06 +0000
Subject: [PATCH 25/39] fix: rotation rate from brake power or throttle always
 terminates

The secant iteration required successive rotation rates to agree to within
1E-14 absolute, which round off can make impossible (endless loop), and it
could run off to negative rotation rates. Bracket the solution instead, and
evaluate the propeller at the rotation rate that was found.
---
 machup/propmodel.py | 61 +++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index ed8bacb..5857c34 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -488,25 +488,30 @@ class PropModel:
         else:
             self._rot_per_sec = self._find_rot_rate_power()
         self._J = self._Vinf/(self._rot_per_sec*self._d)
+        self._find_coefficients()
 
-    def _find_rot_rate_power(self, error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
-        x1 = x0*1.5
-        y0 = self._zero_power_difference(x0)
-        if abs(y0)<error:
-            return x0
-        y1 = self._zero_power_difference(x1)
-        while True:
-            #new guess based on secant method
-            x2 = x1-((y1*(x1-x0))/(y1-y0))
-            #if solution has converged, return results
-            if abs(x2-x1)<error:
-                return x2
-            #set variables for next iteration
-            x0=x1
-            y0=y1
-            x1=x2
-            y1=self._zero_power_difference(x1)
+    def _find_rot_rate(self, difference):
+        #find interval in which the difference between what the propeller
+        #absorbs and what it is given changes sign
+        low = high = 15.
+        iters = 0
+        while difference(high)<=0.:
+            low = high
+            high *= 2.
+            iters += 1
+            if iters>30:
+                raise RuntimeError("Unable to find rotation rate of propeller")
+        if low == high:
+            while difference(low)>0.:
+                high = low
+                low *= 0.5
+                iters += 1
+                if iters>30:
+                    raise RuntimeError("Unable to find rotation rate of propeller")
+        return opt.brentq(difference,low,high,xtol=1E-14)
+
+    def _find_rot_rate_power(self):
+        return self._find_rot_rate(self._zero_power_difference)
 
     def _zero_power_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
@@ -515,24 +520,8 @@ class PropModel:
         prop_power = (self._rho*(self._rot_per_sec**3)*(self._d**5)*self._CP)
         return prop_power-self._brake_power
 
-    def _find_rot_rate_motor(self,error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
-        x1 = x0*1.5
-        y0 = self._zero_torque_difference(x0)
-        if abs(y0)<error:
-            return x0
-        y1 = self._zero_torque_difference(x1)
-        while True:
-            #new guess based on secant method
-            x2 = x1-((y1*(x1-x0))/(y1-y0))
-            #if solution has converged, return results
-            if abs(x2-x1)<error:
-                return x2
-            #set variables for next iteration
-            x0=x1
-            y0=y1
-            x1=x2
-            y1=self._zero_torque_difference(x1)
+    def _find_rot_rate_motor(self):
+        return self._find_rot_rate(self._zero_torque_difference)
 
     def _zero_torque_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
-- 
2.43.0


From bf2196a930ffacab719b2965a0ac2753a0e64407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 26/39] fix: stall_airspeed terminates when no airspeed
 supports the weight

---
 machup/MU.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index d9a8dca..3c50b3b 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -661,6 +661,7 @@ class MachUp:
                 y0 = stall_info0["lift"]-weight #difference between max lift and weight
                 y1 = stall_info1["lift"]-weight
 
+                iters = 0
                 while True:
                     #new guess based on secant method
                     x2 = x1-((y1*(x1-x0))/(y1-y0))
@@ -678,6 +679,13 @@ class MachUp:
                     aero1["V_mag"] = x1
                     stall_info1 = self.stall_onset(aero1,control_state,prop_state)
                     y1=stall_info1["lift"]-weight
+                    iters += 1
+                    if iters>50:
+                        if filename:
+                            stall_airspeed_info = {"error":"unflyable"}
+                            break
+                        else:
+                            raise RuntimeError("Unable to find an airspeed at which the aircraft stalls with the given weight")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
-- 
2.43.0


From c0aa2ff5a126d9d6ca955eb316f7c9c011ed80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 27/39] fix: derivative methods leave the caller's states alone

---
 machup/MU.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 3c50b3b..8e2ad55 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -810,6 +810,7 @@ class MachUp:
         stab_deriv = {}
 
         if aero_state:
+            aero_state = aero_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.5
@@ -896,6 +897,7 @@ class MachUp:
         damp_deriv = {}
         
         if aero_state:
+            aero_state = aero_state.copy()
             V = aero_state.get("V_mag",10.)
             DP = 0.5*aero_state.get("rho",0.0023769)*V*V*self.Sw
 
@@ -1010,6 +1012,7 @@ class MachUp:
                           "rho":0.0023769,
                           "alpha": 0}
         if control_state:
+            control_state = control_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.25
-- 
2.43.0


From 70ea548146a43ac31d2402171f899b642a69d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 28/39] fix: LLGrid.get_drag_coefficients returns the section
 values

---
 machup/llgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/llgrid.py b/machup/llgrid.py
index c4a055f..4d42dfd 100644
--- a/machup/llgrid.py
+++ b/machup/llgrid.py
@@ -520,9 +520,9 @@ class LLGrid:
             Array of airfoil drag coefficients for each section.
 
         """
-        return (self._data["CD0_left"],
-                self._data["CD1_left"],
-                self._data["CD2_left"])
+        return (self._data["CD0"],
+                self._data["CD1"],
+                self._data["CD2"])
 
     def get_right_drag_coeff(self):
         """Get right airfoil drag coefficients of segment that section lays on.
-- 
2.43.0


From ab24bb41d5dc66d2800c12bcf3b2a1b51f5da93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:59 +0000
Subject: [PATCH 29/39] fix: PropsSolver.solve works without an aero_state

---
 machup/propssolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 8182b28..4dcae6f 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -113,6 +113,8 @@ class PropsSolver:
         return self._results
 
     def _rotate_aero_forces(self,F,aero_state):
+        if not aero_state:
+            aero_state = {}
         a = m.radians(aero_state.get("alpha",0.))
         b = m.radians(aero_state.get("beta",0.))
         ca = m.cos(a)
-- 
2.43.0


From f78f3c8cb9f25f749294f981046f2db1ba155bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 30/39] fix: distributions returns arrays of its own

---
 machup/llmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index e7d3bd7..bffad6f 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -631,7 +631,8 @@ class LLModel:
         distributions["section_Cm"] = self.section_cm
         distributions["section_CD_parasitic"] = self.section_cd
         distributions["section_alpha_L0"] = self._grid.get_zero_lift_alpha()
-        return distributions
+        # copied so that altering what is returned does not alter the model
+        return {key: np.copy(value) for key, value in distributions.items()}
 
 
     def _find_stall_location(self):
-- 
2.43.0


From b5a137e9ded0f28b1e3731d39864409acfcbea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 31/39] fix: stall analysis without an aero_state reports
 errors in the requested file

---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 8e2ad55..cf9fc38 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -586,7 +586,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_info = self.stall_onset(aero_state,control_state,prop_state)
+                stall_info = self.stall_onset(aero_state,control_state,prop_state,filename)
 
         else:
             if filename:
@@ -690,7 +690,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, error = error)
+                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, filename, error)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
-- 
2.43.0


From 1622f3686c15ceec533c19b4c0fe6928662fadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:27 +0000
Subject: [PATCH 32/39] fix: stall_airspeed does not answer with a negative
 airspeed

---
 machup/MU.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index cf9fc38..85909df 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -666,7 +666,8 @@ class MachUp:
                     #new guess based on secant method
                     x2 = x1-((y1*(x1-x0))/(y1-y0))
                     #if solution has converged, return results
-                    if abs(x2-x1)<error:
+                    converged = abs(x2-x1)<error
+                    if converged and x2>0.:
                         min_airspeed = x2
                         stall_airspeed_info = stall_info1.copy()
                         stall_airspeed_info["airspeed"] = min_airspeed
@@ -680,7 +681,7 @@ class MachUp:
                     stall_info1 = self.stall_onset(aero1,control_state,prop_state)
                     y1=stall_info1["lift"]-weight
                     iters += 1
-                    if iters>50:
+                    if iters>50 or converged:
                         if filename:
                             stall_airspeed_info = {"error":"unflyable"}
                             break
-- 
2.43.0


From e39f1e79a316cc094b7441f15ae6300f34178f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:35 +0000
Subject: [PATCH 33/39] fix: induced angle of windmilling sections stays below
 zero lift

---
 machup/propmodel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 5857c34..66b1e58 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -448,12 +448,15 @@ class PropModel:
             y1 = self._ei_function(x1)
 
         #the secant steps can stall away from a solution (for instance when
-        #successive estimates are reset to the same value). Bisect for those,
-        #ei lies between zero and the angle that results in zero lift
+        #successive estimates are reset to the same value) or, at windmilling
+        #sections, end at one beyond zero lift. Bisect for those, ei lies between
+        #zero and the angle that results in zero lift
+        zero_lift = self._beta-self._einf
         stalled = np.logical_not(abs(self._ei_function(x2))<1E-10)
+        stalled |= abs(x2)>abs(zero_lift)+1E-8
         if np.any(stalled):
             x0 = np.zeros_like(x2)
-            x1 = self._beta-self._einf
+            x1 = zero_lift
             y0 = self._ei_function(x0)
             for i in range(60):
                 xm = 0.5*(x0+x1)
-- 
2.43.0


From bbc7d9ab35ed447e5579fb5decc34c971ef9d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:09 +0000
Subject: [PATCH 34/39] fix: blades in the STL are drawn at their chord line
 pitch

The aerodynamic pitch is the chord line pitch minus the zero lift angle of
attack; the zero lift angle was subtracted a second time instead of being
added back.
---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index 694c205..8d1e8d5 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -160,7 +160,7 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             Coords = np.zeros((num_nodes,n,3))
             Coords[:,:,0] = -Z_coords
             Coords[:,:,1] =  X_coords*rot_dir
-            twist = prop.get_aero_pitch_angle()-prop.get_zero_lift_alpha()
+            twist = prop.get_aero_pitch_angle()+prop.get_zero_lift_alpha()
             e = Euler2Quat((0.,0.,-rot_dir*twist))
             e = np.transpose(e)
 
-- 
2.43.0


From 3df72bbbb3152a64f7983e1fb32ff332fe60ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:25 +0000
Subject: [PATCH 35/39] fix: camber slope aft of maximum camber in NACA
 outlines

The slope of the camber line aft of the maximum camber was half of that of
the camber line itself.
---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index 8d1e8d5..31a5f35 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -229,7 +229,7 @@ def plotNACA(airfoil,n):
         Yc_x = np.copy(Yc)
     else:
         Yc = np.where(Xc<p,(m/(p*p))*(2*p*Xc-Xc*Xc),(m/((1-p)**2))*((1-2*p)+2*p*Xc-Xc*Xc))
-        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(m/(1-p)**2)*(p-Xc))
+        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(2*m/(1-p)**2)*(p-Xc))
 
     Yul = Yc+(Yt*np.cos(np.arctan(Yc_x))*np.sign(theta))
     Xul = Xc-(Yt*np.sin(np.arctan(Yc_x))*np.sign(theta))
-- 
2.43.0


From 4e8d63c7786fd32fbb55c987bcd8ab11598b6296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 36/39] fix: control_surface accepts the documented is_sealed
 argument

---
 machup/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index dae3910..8fdefff 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -1404,7 +1404,8 @@ class ControlSurface:
             except TypeError:
                 self._chord_root = dimensions["percent_chord"]
                 self._chord_tip = dimensions["percent_chord"]
-            self._is_sealed = dimensions.get("sealed", 1)
+            self._is_sealed = dimensions.get("is_sealed",
+                                             dimensions.get("sealed", 1))
 
             mix_dict = dimensions["mix"]
             if "aileron" in mix_dict:
-- 
2.43.0


From 60f802c406c6a5a3e9d83ac18743937f1f144482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 37/39] fix: aerodynamic pitch angles beyond 90 degrees are not
 turned by 180

---
 machup/propmodel.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 66b1e58..afa7da7 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -175,9 +175,8 @@ class PropModel:
             pitch_func = interp1d(r,p,kind='cubic',fill_value = "extrapolate")
 
             beta_c = pitch_func(self._zeta)
-            l_c = 2*np.pi*self._r*np.tan(beta_c)
-            l = (2*np.pi*self._r)*(l_c-2*np.pi*self._r*np.tan(self._alpha_L0))/(2*np.pi*self._r+l_c*np.tan(self._alpha_L0))
-            self._beta = np.arctan(l/(2*np.pi*self._r))
+            # the zero-lift line is above the chord line by -alpha_L0
+            self._beta = beta_c-self._alpha_L0
             if pitch_increment:
                 self._beta+=np.radians(pitch_increment)
             return
@@ -188,9 +187,8 @@ class PropModel:
         else:
             raise RuntimeError("Invalid pitch type")
         
-        # convert chord line pitch (Kc) to aerodynamic pitch (K)
-        K = np.pi*self._zeta*((Kc-np.pi*self._zeta*np.tan(self._alpha_L0))/(np.pi*self._zeta+Kc*np.tan(self._alpha_L0)))
-        self._beta = np.arctan2(K,np.pi*self._zeta)
+        # convert chord line pitch angle to aerodynamic pitch angle
+        self._beta = np.arctan2(Kc,np.pi*self._zeta)-self._alpha_L0
         if pitch_increment:
             self._beta+=np.radians(pitch_increment)
 
-- 
2.43.0


From 316f3950605d740ecddf2210e89aa7534033b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 38/39] fix: stall_airspeed with a filename raised when no
 stall angle was found during the search

The documentation promises that the error is saved in the file; stall_onset
does so, but stall_airspeed let the RuntimeError of its inner calls escape.
(property C15)
---
 machup/MU.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 85909df..b500161 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -655,8 +655,12 @@ class MachUp:
                 x1 = (x0*1.5)+0.1
                 aero0["V_mag"] = x0
                 aero1["V_mag"] = x1
-                stall_info0 = self.stall_onset(aero0,control_state,prop_state)
-                stall_info1 = self.stall_onset(aero1,control_state,prop_state)
+                stall_info0 = self.stall_onset(aero0,control_state,prop_state,filename)
+                if "error" in stall_info0:
+                    return stall_info0
+                stall_info1 = self.stall_onset(aero1,control_state,prop_state,filename)
+                if "error" in stall_info1:
+                    return stall_info1
 
                 y0 = stall_info0["lift"]-weight #difference between max lift and weight
                 y1 = stall_info1["lift"]-weight
@@ -678,7 +682,10 @@ class MachUp:
                     y0=y1
                     x1=x2
                     aero1["V_mag"] = x1
-                    stall_info1 = self.stall_onset(aero1,control_state,prop_state)
+                    stall_info1 = self.stall_onset(aero1,control_state,prop_state,filename)
+                    if "error" in stall_info1:
+                        stall_airspeed_info = {"error":"unflyable"}
+                        break
                     y1=stall_info1["lift"]-weight
                     iters += 1
                     if iters>50 or converged:
-- 
2.43.0


From 174f54ab33824b1b23e3c1bbcefb848673b78f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:26 +0000
Subject: [PATCH 39/39] fix: an airfoil given for an unknown end of a wing was
 silently ignored

---
 machup/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/machup/geometry.py b/machup/geometry.py
index 8fdefff..0f5947a 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -784,6 +784,8 @@ class WingSegment:
             self._root_airfoil = airfoil
         elif end == "tip":
             self._tip_airfoil = airfoil
+        else:
+            raise RuntimeError(str(end)+" is not a valid airfoil location")
 
     def control_surface(self, control_surface):
         """Set the control surface for the wing segment.
-- 
2.43.0

