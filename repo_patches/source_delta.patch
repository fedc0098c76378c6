From 0755a0437f84f1097ac66d43b4f37128a07934b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 01/28] fix: panel area of swept panels

The panel area was computed as the product of the lengths of the mid-span and
the mid-chord vectors, which is only correct if these are perpendicular. The
areas (and pressure coefficients) of all swept panels were wrong.
---
 src/lib/pytornado/aero/c_lattice.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/aero/c_lattice.cpp b/src/lib/pytornado/aero/c_lattice.cpp
index cfe5e28..520aba4 100644
--- a/src/lib/pytornado/aero/c_lattice.cpp
+++ b/src/lib/pytornado/aero/c_lattice.cpp
@@ -271,7 +271,13 @@ void vlm_lattice(latticestruct* lattice, infostruct* info, statestruct* state,
 
                     // Panel chord through centre
                     double chord = sqrt(chord_x*chord_x + chord_y*chord_y + chord_z*chord_z);
-                    double area = span*chord;
+
+                    // Panel area (mid-span vector x mid-chord vector)
+                    double area_x = span_y*chord_z - span_z*chord_y;
+                    double area_y = span_z*chord_x - span_x*chord_z;
+                    double area_z = span_x*chord_y - span_y*chord_x;
+                    double area = sqrt(area_x*area_x + area_y*area_y + area_z*area_z);
+
                     double aspect = span/chord;
 
                     if (area > info->area_max) { info->area_max = area; }
-- 
2.43.0


From 9f53f9583679c56053d99829ec8c3dcb23de2769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 02/28] fix: hinge line on the trailing edge

Interpolating a hinge line with 'xsi' equal to 1 could give a value slightly
larger than 1 due to rounding errors, and a valid control was refused.
---
 src/lib/pytornado/objects/aircraft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 86b5a87..38eb85f 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -2090,7 +2090,8 @@ def xsi_interpol(segment_vertices, rel_inner, rel_outer, eta):
     p_intersect = get_plane_line_intersect(intersect_plane_normal, p_upper, insegment_direction, p_inner)
     xsi_interpol = np.linalg.norm(p_intersect-p_upper)/np.linalg.norm(p_lower-p_upper)
 
-    return xsi_interpol
+    # The result may exceed 1 due to rounding errors if both given points are on the trailing edge
+    return min(xsi_interpol, 1.0)
 
 
 def mirror_point(point, plane):
-- 
2.43.0


From d9eb6105a4f4e5e70489f3f1a9c4064d154a39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 03/28] fix: mirror image across the Y-Z plane

The vertices of a mirrored strip were reordered such that the leading edge comes
first, but the relative chordwise coordinates still referred to the original
leading edge. Panels on the mirrored side pointed upstream, and control surfaces
were placed at the wrong end of the chord.
---
 src/lib/pytornado/objects/aircraft.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 38eb85f..b5b07d2 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1870,6 +1870,10 @@ class StripSubdivision:
         if mirror:
             xsi_a, xsi_b, xsi_c, xsi_d = order_mirrored_vertex_points((xsi_a, xsi_b, xsi_c, xsi_d), self.symmetry)
 
+            # Leading and trailing edge are swapped on the mirrored side
+            if self.symmetry == 3:
+                xsi_a, xsi_b, xsi_c, xsi_d = (1 - xsi for xsi in (xsi_a, xsi_b, xsi_c, xsi_d))
+
         a_abs = a_sd + xsi_a*(d_sd - a_sd)
         b_abs = b_sd + xsi_b*(c_sd - b_sd)
         c_abs = b_sd + xsi_c*(c_sd - b_sd)
@@ -1904,6 +1908,10 @@ class StripSubdivision:
         if mirror and self.symmetry == 2:
             xsi_h1, xsi_h2 = xsi_h2, xsi_h1
 
+        # In case of type 3 symmetry, leading and trailing edge are swapped
+        if mirror and self.symmetry == 3:
+            xsi_h1, xsi_h2 = 1 - xsi_h1, 1 - xsi_h2
+
         p_inner = a_sd + xsi_h1*(d_sd - a_sd)
         p_outer = b_sd + xsi_h2*(c_sd - b_sd)
 
-- 
2.43.0


From 4a5d57be1f1303071abbd9d9ad4eda0579c94385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 04/28] fix: camber of wings mirrored across the X-Y and Y-Z
 planes

The camber line was not mirrored together with the wing geometry: the slope had
the wrong sign on the mirrored side, and across the Y-Z plane it was evaluated
at the wrong chordwise positions.
---
 src/lib/pytornado/aero/vlm.py         | 6 +++++-
 src/lib/pytornado/objects/aircraft.py | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 5381fdd..916ab12 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -404,13 +404,17 @@ def gen_lattice(aircraft, state, settings, make_new_subareas=True):
             airfoil = subarea.parent_segment.segment_airfoil.at_eta(eta_m)
 
             num_panels = len([i for i in pan_idx])
-            collocation_xsi = subarea.get_xsi_for_collocation_points(num_panels)
+            collocation_xsi = subarea.get_xsi_for_collocation_points(num_panels, mirror)
 
             for pan_of_subarea, i in enumerate(pan_idx):
                 rot_axis = subarea.abs_camber_line_rot_axis(mirror)
                 xsi = collocation_xsi[pan_of_subarea]
                 angle = np.deg2rad(airfoil.camber_line_angle(xsi))
 
+                # The camber line is mirrored with the wing
+                if mirror and subarea.symmetry in (1, 3):
+                    angle = -angle
+
                 # If deflection is 0, do not attempt rotation
                 if angle:
                     R = axis_rot_matrix(rot_axis, angle)
diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index b5b07d2..01a6e20 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -2011,7 +2011,7 @@ class StripSubdivision:
 
         self.parent_control = control_object
 
-    def get_xsi_for_collocation_points(self, num_panels):
+    def get_xsi_for_collocation_points(self, num_panels, mirror=False):
         """
         Return the relative xsi coordinates of a panel collocation points
 
@@ -2021,6 +2021,7 @@ class StripSubdivision:
 
         Args:
             :num_panels: number of panels on a segment subdivision
+            :mirror: (bool) optional flag, if true xsi values of the mirrored side are returned
 
         Returns:
             :segment_xsi: list with xsi values of the collocation points
@@ -2029,6 +2030,10 @@ class StripSubdivision:
         xsi_mid_ab = (self.rel_vertices['xsi_a'] + self.rel_vertices['xsi_b'])/2
         xsi_mid_cd = (self.rel_vertices['xsi_c'] + self.rel_vertices['xsi_d'])/2
 
+        # In case of type 3 symmetry, leading and trailing edge are swapped
+        if mirror and self.symmetry == 3:
+            xsi_mid_ab, xsi_mid_cd = xsi_mid_cd, xsi_mid_ab
+
         segment_xsi = []
         for i in range(num_panels):
             # Collocation points have a relative chordwise location of 0.75
-- 
2.43.0


From eb710157c1b05d8667df42f14a90d71270c98c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 05/28] fix: camber line of mirrored twisted wings

The axis used to rotate panel normals to the local camber slope was computed
from the inner edge of a subarea only. On the mirrored side the edges are
swapped, hence the normals of a twisted, cambered wing and of its mirror image
were not mirror images.
---
 src/lib/pytornado/objects/aircraft.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 01a6e20..0cbd68d 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1954,10 +1954,13 @@ class StripSubdivision:
 
         a = subarea_vertices['a']
         b = subarea_vertices['b']
+        c = subarea_vertices['c']
         d = subarea_vertices['d']
 
-        ab = b - a
-        ad = d - a
+        # Use averaged directions, otherwise the axis of a twisted subarea
+        # and the axis of its mirror image are not mirror images
+        ab = 0.5*((b - a) + (c - d))
+        ad = 0.5*((d - a) + (c - b))
 
         subarea_normal = np.cross(ab, ad)
         rot_axis = np.cross(subarea_normal, ad)
-- 
2.43.0


From 807409e9f19a68bd75c47af460b0041900075ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 06/28] fix: hinge line on an edge of a control across segments

Interpolating the hinge position of a control surface that spans several
segments could give values slightly outside of [0, 1] due to rounding errors,
and a valid control was refused.
---
 src/lib/pytornado/aero/vlm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 916ab12..37f21c5 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -204,6 +204,9 @@ def pre_panelling(aircraft):
                     xsi_hi = lin_interpol((xsi_h1, xsi_h2), (0, l), l_i)
                     xsi_ho = lin_interpol((xsi_h1, xsi_h2), (0, l), l_o)
 
+                    # Values on an edge must not leave the segment due to rounding errors
+                    xsi_i, xsi_o, xsi_hi, xsi_ho = np.clip([xsi_i, xsi_o, xsi_hi, xsi_ho], 0, 1)
+
                     list_of_segments[i] = [segment_uid, eta_i, eta_o, xsi_i, xsi_o, xsi_hi, xsi_ho]
 
             # Finally, we create the subdivisions using our list
-- 
2.43.0


From f26f33922d1c890bc0551680bfc99f71ef433ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 07/28] fix: unused parameters set to null in a batch of flight
 states

The documentation allows to set unused parameters (e.g. 'mach' and 'altitude') to
null, but a state file with lists of values was refused in this case.
---
 src/lib/pytornado/objects/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index 7629576..28160e0 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -159,6 +159,10 @@ class FlightState:
         # ----- Make everything into lists -----
         array_lenghts = set()
         for key, value in aero.items():
+            # Unused parameters may be set to 'null', also in lists of flight states
+            if value is None:
+                continue
+
             if not isinstance(value, list):
                 value = [value]
 
-- 
2.43.0


From b04db94a4f16b9cb44554d606971b556f5201b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 08/28] fix: check the range of the flow angles

The condition for an angle outside of the range [-90, 90] degrees could never be
true, so that such angles were accepted.
---
 src/lib/pytornado/objects/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index 28160e0..7ff3f44 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -223,7 +223,7 @@ class FlightState:
 
         # Check that angles are in correct range
         for angle in [ALPHA, BETA]:
-            range_is_not_ok = (self.aero[angle] < -90) & (self.aero[angle] > 90)
+            range_is_not_ok = ~((self.aero[angle] >= -90) & (self.aero[angle] <= 90))
             if any(range_is_not_ok):
                 raise ValueError(f"Angle '{angle}' must be in range [-90, 90] degrees")
 
-- 
2.43.0


From c7a9442eb5bb6ba3abe601ccaa76692d0c84451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 09/28] fix: do not modify the deformation field

Each time a deformed point was computed, the displacement due to rotations was
added to the deformation field itself, so that the deformed geometry depended on
the number and the order of evaluations.
---
 src/lib/pytornado/objects/aircraft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 0cbd68d..737cf94 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -977,7 +977,8 @@ class WingSegment:
         if def_field is None:
             return point
 
-        def_point = get_deformed_point(point, def_field)
+        # Note: 'get_deformed_point()' modifies the deformation field which is passed in
+        def_point = get_deformed_point(point, def_field.copy())
         return def_point
 
     def generate(self):
-- 
2.43.0


From 1d7b2a339880e70186fce7a4def78bb108dea9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 10/28] fix: deformation of mirrored wings with '_m' in their
 uid

All occurrences of '_m' were removed, not just the suffix.
---
 src/lib/pytornado/fileio/native/deformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/deformation.py b/src/lib/pytornado/fileio/native/deformation.py
index 9228737..4f2fbb2 100644
--- a/src/lib/pytornado/fileio/native/deformation.py
+++ b/src/lib/pytornado/fileio/native/deformation.py
@@ -64,7 +64,7 @@ def load(aircraft, settings):
 
         # Convention: Deformation fields ending with '_m' belongs to a 'mirrored' component
         if wing_uid.endswith('_m'):
-            aircraft.wings[wing_uid.replace('_m', '')].def_field_mirror = def_field
+            aircraft.wings[wing_uid[:-len('_m')]].def_field_mirror = def_field
             continue
 
         aircraft.wings[wing_uid].def_field = def_field
-- 
2.43.0


From 366d615a9febd6dd9517513dd343823bea6e84c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 11/28] fix: save airfoil files of the project with relative
 paths

---
 src/lib/pytornado/fileio/native/aircraft.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index 54dbb8e..f123a1d 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -158,9 +158,11 @@ def save(aircraft, settings):
 
             segment_entry['airfoils'] = {}
             for key, value in segment.airfoils.items():
-                # If airfoil is "blade" file, make sure to save as relative path
+                # If airfoil is a project file or a "blade" file, make sure to save as relative path
                 # Note: Airfoil definition may also be for instance "NACA1234"
-                if "blade." in value:
+                if value.startswith(os.path.join(settings.paths('d_airfoils'), '')):
+                    value = os.path.relpath(value, start=settings.paths('root'))
+                elif "blade." in value:
                     # Make path relative!
                     value = os.path.join(PATHS.DIR.AIRFOILS, os.path.basename(value))
                 segment_entry['airfoils'][key] = value
-- 
2.43.0


From a4c4317bfc39520fe46d219b812d56483a7bd7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 12/28] fix: saved flight states with altitude or Mach number
 could not be loaded

---
 src/lib/pytornado/fileio/native/state.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/state.py b/src/lib/pytornado/fileio/native/state.py
index c7ece43..27b6588 100644
--- a/src/lib/pytornado/fileio/native/state.py
+++ b/src/lib/pytornado/fileio/native/state.py
@@ -34,7 +34,7 @@ import json
 from commonlibs.logger import truncate_filepath
 
 from pytornado.fileio.utils import dump_pretty_json
-from pytornado.objects.state import FlightState
+from pytornado.objects.state import FlightState, AIRSPEED, DENSITY, STATE_SECONDARY_PARAMS
 
 logger = logging.getLogger(__name__)
 
@@ -81,5 +81,11 @@ def save(state, settings):
     for key in ['aero']:
         output[key] = dict(getattr(state, key))
 
+    # Airspeed and density are always known for a loaded state. Together with
+    # the alternative input parameters the saved state would be ambiguous.
+    if output['aero'][AIRSPEED] is not None and output['aero'][DENSITY] is not None:
+        for key in STATE_SECONDARY_PARAMS:
+            output['aero'][key] = None
+
     with open(state_file, 'w') as fp:
         dump_pretty_json(output, fp)
-- 
2.43.0


From 52bc117e60540a2e62b6b7eb448617fe92f08361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 13/28] fix: saving settings removed hidden settings which are
 still in use

---
 src/lib/pytornado/fileio/native/settings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/settings.py b/src/lib/pytornado/fileio/native/settings.py
index 342814b..96aa067 100644
--- a/src/lib/pytornado/fileio/native/settings.py
+++ b/src/lib/pytornado/fileio/native/settings.py
@@ -27,6 +27,7 @@ Functions for reading and writing of PyTornado execution settings file.
 Developed at Airinnova AB, Stockholm, Sweden.
 """
 
+from copy import deepcopy
 import logging
 import json
 from pathlib import Path
@@ -78,10 +79,11 @@ def save(settings):
     set_file = settings.paths('f_settings')
     logger.info(f"Saving settings to file '{truncate_filepath(set_file)}'...")
 
-    clean_dict(settings.settings)
+    # The settings which are still in use must not be changed
+    output = clean_dict(deepcopy(settings.settings))
 
     with open(set_file, 'w') as fp:
-        dump_pretty_json(settings.settings, fp)
+        dump_pretty_json(output, fp)
 
 
 def clean_dict(dictionary, to_del='_'):
-- 
2.43.0


From 25ef9ce7a4a416a89a0db28eb5d23bef48c9a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 14/28] fix: settings could not be saved after an analysis

---
 src/lib/pytornado/plot/makeplots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/plot/makeplots.py b/src/lib/pytornado/plot/makeplots.py
index 6546635..804ecb9 100644
--- a/src/lib/pytornado/plot/makeplots.py
+++ b/src/lib/pytornado/plot/makeplots.py
@@ -50,7 +50,8 @@ def make_all(settings, aircraft, cur_state, vlmdata, lattice):
     def get_plot_settings(plot_name):
         """Return a 'plot_settings' dictionary"""
 
-        plot_settings = settings.settings['plot'][plot_name]
+        # Copy, since the project settings shall not contain the plot directory
+        plot_settings = dict(settings.settings['plot'][plot_name])
         plot_settings['plot_dir'] = settings.paths('d_plots')
         return plot_settings
 
-- 
2.43.0


From 84564ec4931201ab1afa9d7d74ac2646ea847a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 15/28] fix: do not share default settings between settings
 objects

---
 src/lib/pytornado/objects/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/utils.py b/src/lib/pytornado/objects/utils.py
index 18dc8e7..3efa233 100644
--- a/src/lib/pytornado/objects/utils.py
+++ b/src/lib/pytornado/objects/utils.py
@@ -30,6 +30,7 @@ Developed for Airinnova AB, Stockholm, Sweden.
 
 from collections import OrderedDict
 from collections.abc import MutableMapping
+from copy import deepcopy
 
 
 def check_dict(template_dict, test_dict):
@@ -124,5 +125,6 @@ def get_default_dict(template_dict):
         # Treat non-empty dictionary recursively
         if isinstance(value, dict) and value:
             value = get_default_dict(template_dict=value)
-        default_dict[key] = value
+        # Mutable defaults must not be shared
+        default_dict[key] = deepcopy(value)
     return default_dict
-- 
2.43.0


From 9912944a11a8afcb5f1c578eacd3b13145c2c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 16/28] fix: refuse controls on unknown or wrongly ordered
 segments

---
 src/lib/pytornado/objects/aircraft.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 737cf94..3b1c625 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -497,6 +497,21 @@ class Wing:
         if not wing_continuous:
             logger.warning("Wing is discontinuous!")
 
+        # ----- Check location of controls -----
+        segment_uids = list(self.segments.keys())
+        for control in self.controls.values():
+            for segment_uid in control.segment_uid.values():
+                if segment_uid not in segment_uids:
+                    raise ComponentDefinitionError(
+                        f"Control '{control.uid}': wing '{self.uid}' has no segment '{segment_uid}'"
+                    )
+
+            inner, outer = control.segment_uid['inner'], control.segment_uid['outer']
+            if segment_uids.index(inner) > segment_uids.index(outer):
+                raise ComponentDefinitionError(
+                    f"Control '{control.uid}': segment '{inner}' is further outwards than segment '{outer}'"
+                )
+
         # ----- Wing has been checked -----
         self._state = True
 
-- 
2.43.0


From 71de45283f524a4b053ed480c18db08bdd0a9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 17/28] fix: panels of a control are optional

---
 src/lib/pytornado/fileio/native/aircraft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index f123a1d..51e5061 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -111,7 +111,8 @@ def load(settings):
             for key, value in control_entry['rel_hinge_vertices'].items():
                 control.rel_hinge_vertices[key] = value
 
-            control.panels['num_c'] = control_entry['panels']['num_c']
+            if control_entry.get('panels', None):
+                control.panels['num_c'] = control_entry['panels'].get('num_c', None)
             control.check()
 
     aircraft.generate()
-- 
2.43.0


From df49156e45430291d4c7c4fe27cfac97e204a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 18/28] fix: release references taken by the compiled kernels

---
 src/lib/pytornado/aero/c_vlm.cpp | 203 +++++++++++++++++--------------
 1 file changed, 110 insertions(+), 93 deletions(-)

diff --git a/src/lib/pytornado/aero/c_vlm.cpp b/src/lib/pytornado/aero/c_vlm.cpp
index 1975e10..22d34ca 100644
--- a/src/lib/pytornado/aero/c_vlm.cpp
+++ b/src/lib/pytornado/aero/c_vlm.cpp
@@ -53,6 +53,23 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results );
 static int set_infostruct( PyObject* py_lattice, infostruct* info );
 static int set_resultstruct( PyObject* py_results, resultstruct* results );
 
+// ===== Reference counting =====
+// Get an attribute as borrowed reference (the object which has the attribute keeps it alive)
+static PyObject* get_attr( PyObject* py_obj, const char* name )
+{
+    PyObject* py_attr = PyObject_GetAttrString(py_obj, name);
+    Py_XDECREF(py_attr);
+    return py_attr;
+}
+
+// Set a dictionary value (the dictionary keeps its own reference to the value)
+static void set_float( PyObject* py_dict, PyObject* py_key, double value )
+{
+    PyObject* py_val = PyFloat_FromDouble(value);
+    PyDict_SetItem(py_dict, py_key, py_val);
+    Py_XDECREF(py_val);
+}
+
 // ===== Miscellaneous functions =====
 double deg2rad(double deg)
 {
@@ -347,12 +364,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'p'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "p")))
+    else if (!PyArray_Check(get_attr(py_lattice, "p")))
     {
         std::cout << "ERROR: lattice.p is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_p = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "p");
+    py_p = (PyArrayObject*)get_attr(py_lattice, "p");
 
     // Get NUMPY array of panel vortex segment endpoints
     if (!PyObject_HasAttrString(py_lattice, "v"))
@@ -360,12 +377,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'v'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "v")))
+    else if (!PyArray_Check(get_attr(py_lattice, "v")))
     {
         std::cout << "ERROR: lattice.v is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_v = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "v");
+    py_v = (PyArrayObject*)get_attr(py_lattice, "v");
 
     // Get NUMPY array of panel collocation points
     if (!PyObject_HasAttrString(py_lattice, "c"))
@@ -373,12 +390,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'c'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "c")))
+    else if (!PyArray_Check(get_attr(py_lattice, "c")))
     {
         std::cout << "ERROR: lattice.c is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_c = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "c");
+    py_c = (PyArrayObject*)get_attr(py_lattice, "c");
 
     // Get NUMPY array of bound leg midpoint
     if (!PyObject_HasAttrString(py_lattice, "bound_leg_midpoints"))
@@ -386,12 +403,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'bound_leg_midpoints'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "bound_leg_midpoints")))
+    else if (!PyArray_Check(get_attr(py_lattice, "bound_leg_midpoints")))
     {
         std::cout << "ERROR: lattice.bound_leg_midpoints is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_bound_leg_midpoints = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "bound_leg_midpoints");
+    py_bound_leg_midpoints = (PyArrayObject*)get_attr(py_lattice, "bound_leg_midpoints");
 
     // Get NUMPY array of panel normal vectors
     if (!PyObject_HasAttrString(py_lattice, "n"))
@@ -399,12 +416,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'n'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "n")))
+    else if (!PyArray_Check(get_attr(py_lattice, "n")))
     {
         std::cout << "ERROR: lattice.n is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_n = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "n");
+    py_n = (PyArrayObject*)get_attr(py_lattice, "n");
 
     // Get NUMPY array of panel corner points
     if (!PyObject_HasAttrString(py_lattice, "a"))
@@ -412,12 +429,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'a'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyArray_Check(PyObject_GetAttrString(py_lattice, "a")))
+    else if (!PyArray_Check(get_attr(py_lattice, "a")))
     {
         std::cout << "ERROR: lattice.a is not a NUMPY array" << std::endl;
         return ERR_TYPE;
     }
-    py_a = (PyArrayObject*)PyObject_GetAttrString(py_lattice, "a");
+    py_a = (PyArrayObject*)get_attr(py_lattice, "a");
 
     // Get epsilon
     if (!PyObject_HasAttrString(py_lattice, "epsilon"))
@@ -425,12 +442,12 @@ static int get_latticestruct( PyObject* py_lattice, latticestruct* lattice )
         std::cout << "ERROR: lattice does not have attribute 'epsilon'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    else if (!PyFloat_Check(PyObject_GetAttrString(py_lattice, "epsilon")))
+    else if (!PyFloat_Check(get_attr(py_lattice, "epsilon")))
     {
         std::cout << "ERROR: lattice.epsilon is not a FLOAT" << std::endl;
         return ERR_TYPE;
     }
-    epsilon = PyFloat_AsDouble(PyObject_GetAttrString(py_lattice, "epsilon"));
+    epsilon = PyFloat_AsDouble(get_attr(py_lattice, "epsilon"));
 
     // ===== GET LATTICE ATTRIBUTES (DATA) =====
 
@@ -502,12 +519,12 @@ static int get_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: lattice does not have attribute 'info'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_lattice, "info");
+    py_attr = get_attr(py_lattice, "info");
     py_dict = py_attr;
 
     // GET LATTICE CONTROLS DATA
 
-    py_key = PyUnicode_FromString("num_panels");
+    py_key = PyUnicode_InternFromString("num_panels");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'num_panels' in lattice.info" << std::endl;
@@ -524,7 +541,7 @@ static int get_infostruct( PyObject* py_lattice, infostruct* info )
     // Get number of panels
     info->num_pan = PyLong_AsLong(py_val);
 
-    py_key = PyUnicode_FromString("num_segments");
+    py_key = PyUnicode_InternFromString("num_segments");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'num_segments' in lattice.info" << std::endl;
@@ -558,64 +575,64 @@ static int set_infostruct( PyObject* py_lattice, infostruct* info )
         std::cout << "ERROR: lattice does not have attribute 'info'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_lattice, "info");
+    py_attr = get_attr(py_lattice, "info");
     py_dict = py_attr;
 
     // SET LATTICE CONTROLS DATA
 
     // Set minimum panel area
-    py_key = PyUnicode_FromString("area_min");
+    py_key = PyUnicode_InternFromString("area_min");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'area_min' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->area_min));
+    set_float(py_dict, py_key, info->area_min);
 
     // Set maximum panel area
-    py_key = PyUnicode_FromString("area_max");
+    py_key = PyUnicode_InternFromString("area_max");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'area_max' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->area_max));
+    set_float(py_dict, py_key, info->area_max);
 
     // Set average panel area
-    py_key = PyUnicode_FromString("area_avg");
+    py_key = PyUnicode_InternFromString("area_avg");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'area_avg' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->area_avg));
+    set_float(py_dict, py_key, info->area_avg);
 
     // Set minimum panel aspect ratio
-    py_key = PyUnicode_FromString("aspect_min");
+    py_key = PyUnicode_InternFromString("aspect_min");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'aspect_min' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->aspect_min));
+    set_float(py_dict, py_key, info->aspect_min);
 
     // Set maximum panel aspect ratio
-    py_key = PyUnicode_FromString("aspect_max");
+    py_key = PyUnicode_InternFromString("aspect_max");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'aspect_max' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->aspect_max));
+    set_float(py_dict, py_key, info->aspect_max);
 
     // Set average panel aspect ratio
-    py_key = PyUnicode_FromString("aspect_avg");
+    py_key = PyUnicode_InternFromString("aspect_avg");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'aspect_avg' in lattice.info" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(info->aspect_avg));
+    set_float(py_dict, py_key, info->aspect_avg);
 
     return ERR_SUCCESS;
 }
@@ -635,12 +652,12 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
         std::cout << "ERROR: state does not have attribute 'aero'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_state, "aero");
+    py_attr = get_attr(py_state, "aero");
     py_dict = py_attr;
 
     // GET AERODYNAMIC OPERATING CONDITIONS (PY DICT)
 
-    py_key = PyUnicode_FromString("airspeed");
+    py_key = PyUnicode_InternFromString("airspeed");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'airspeed' in state.aero" << std::endl;
@@ -657,7 +674,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
     // Get value of airspeed
     state->airspeed = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("alpha");
+    py_key = PyUnicode_InternFromString("alpha");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'alpha' in state.aero" << std::endl;
@@ -674,7 +691,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
     // Get value of alpha
     state->alpha = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("beta");
+    py_key = PyUnicode_InternFromString("beta");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'beta' in state.aero" << std::endl;
@@ -691,7 +708,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
     // Get value of beta
     state->beta = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("rate_P");
+    py_key = PyUnicode_InternFromString("rate_P");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'rate_P' in state.aero" << std::endl;
@@ -708,7 +725,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
     // Get value of alpha
     state->P = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("rate_Q");
+    py_key = PyUnicode_InternFromString("rate_Q");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'rate_Q' in state.aero" << std::endl;
@@ -725,7 +742,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
     // Get value of alpha
     state->Q = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("rate_R");
+    py_key = PyUnicode_InternFromString("rate_R");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'rate_R' in state.aero" << std::endl;
@@ -742,7 +759,7 @@ static int get_statestruct( PyObject* py_state, statestruct* state )
 
     state->R = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("density");
+    py_key = PyUnicode_InternFromString("density");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'density' in state.aero" << std::endl;
@@ -778,12 +795,12 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
         std::cout << "ERROR: state does not have attribute 'refs'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_state, "refs");
+    py_attr = get_attr(py_state, "refs");
     py_dict = py_attr;
 
     /* GET REFERENCE POINT AND CENTER OF GRAVITY (NUMPY ARRAY) ***************/
 
-    py_key = PyUnicode_FromString("area");
+    py_key = PyUnicode_InternFromString("area");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'area' in state.refs" << std::endl;
@@ -800,7 +817,7 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
     // Get value of reference area
     refs->area = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("span");
+    py_key = PyUnicode_InternFromString("span");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'span' in state.refs" << std::endl;
@@ -817,7 +834,7 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
     // Get value of reference span
     refs->span = PyFloat_AsDouble(py_val);
 
-    py_key = PyUnicode_FromString("chord");
+    py_key = PyUnicode_InternFromString("chord");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'chord' in state.refs" << std::endl;
@@ -837,7 +854,7 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
     PyArrayObject* py_CG = NULL;
     PyArrayObject* py_RP = NULL;
 
-    py_key = PyUnicode_FromString("gcenter");
+    py_key = PyUnicode_InternFromString("gcenter");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'gcenter' in state.refs" << std::endl;
@@ -850,7 +867,7 @@ static int get_refstruct( PyObject* py_state, refstruct* refs )
     }
     py_CG = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("rcenter");
+    py_key = PyUnicode_InternFromString("rcenter");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'rcenter' in state.refs" << std::endl;
@@ -898,7 +915,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: vlmdata does not have attribute 'panelwise'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_data, "panelwise");
+    py_attr = get_attr(py_data, "panelwise");
     py_dict =py_attr;
 
     // GET PANEL-WISE DATA (NUMPY ARRAYS)
@@ -917,7 +934,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
 
     PyArrayObject* py_cp = NULL;
 
-    py_key = PyUnicode_FromString("gamma");
+    py_key = PyUnicode_InternFromString("gamma");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'gamma' in vlmdata.panelwise" << std::endl;
@@ -930,7 +947,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_gamma = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("vx");
+    py_key = PyUnicode_InternFromString("vx");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'vx' in vlmdata.panelwise" << std::endl;
@@ -943,7 +960,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_iwx = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("vy");
+    py_key = PyUnicode_InternFromString("vy");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'vy' in vlmdata.panelwise" << std::endl;
@@ -956,7 +973,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_iwy = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("vz");
+    py_key = PyUnicode_InternFromString("vz");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'vz' in vlmdata.panelwise" << std::endl;
@@ -969,7 +986,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_iwz = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("vmag");
+    py_key = PyUnicode_InternFromString("vmag");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'vmag' in vlmdata.panelwise" << std::endl;
@@ -982,7 +999,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_iwmag = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("fx");
+    py_key = PyUnicode_InternFromString("fx");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'fx' in vlmdata.panelwise" << std::endl;
@@ -995,7 +1012,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_fx = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("fy");
+    py_key = PyUnicode_InternFromString("fy");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'fy' in vlmdata.panelwise" << std::endl;
@@ -1008,7 +1025,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_fy = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("fz");
+    py_key = PyUnicode_InternFromString("fz");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'fz' in vlmdata.panelwise" << std::endl;
@@ -1021,7 +1038,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_fz = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("fmag");
+    py_key = PyUnicode_InternFromString("fmag");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'fmag' in vlmdata.panelwise" << std::endl;
@@ -1034,7 +1051,7 @@ static int get_resultstruct( PyObject* py_data, resultstruct* results )
     }
     py_fmag = (PyArrayObject*)PyDict_GetItem(py_dict, py_key);
 
-    py_key = PyUnicode_FromString("cp");
+    py_key = PyUnicode_InternFromString("cp");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'cp' in vlmdata.panelwise" << std::endl;
@@ -1146,91 +1163,91 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: vlmdata does not have attribute 'forces'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_data, "forces");
+    py_attr = get_attr(py_data, "forces");
     py_dict = py_attr;
 
     // SET AERODYNAMIC FORCES
 
     // Get total x-directional force
-    py_key = PyUnicode_FromString("x");
+    py_key = PyUnicode_InternFromString("x");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'x' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_x));
+    set_float(py_dict, py_key, results->ftot_x);
 
     // Get total y-directional force
-    py_key = PyUnicode_FromString("y");
+    py_key = PyUnicode_InternFromString("y");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'y' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_y));
+    set_float(py_dict, py_key, results->ftot_y);
 
     // Get total z-directional force
-    py_key = PyUnicode_FromString("z");
+    py_key = PyUnicode_InternFromString("z");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'z' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_z));
+    set_float(py_dict, py_key, results->ftot_z);
 
     // Get total drag force
-    py_key = PyUnicode_FromString("D");
+    py_key = PyUnicode_InternFromString("D");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'D' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_D));
+    set_float(py_dict, py_key, results->ftot_D);
 
     // Get total side force
-    py_key = PyUnicode_FromString("C");
+    py_key = PyUnicode_InternFromString("C");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'C' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_C));
+    set_float(py_dict, py_key, results->ftot_C);
 
     // Get total lift force
-    py_key = PyUnicode_FromString("L");
+    py_key = PyUnicode_InternFromString("L");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'L' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->ftot_L));
+    set_float(py_dict, py_key, results->ftot_L);
 
     // Get total x-directional moment
-    py_key = PyUnicode_FromString("l");
+    py_key = PyUnicode_InternFromString("l");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'l' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->mtot_x));
+    set_float(py_dict, py_key, results->mtot_x);
 
     // Get total y-directional moment
-    py_key = PyUnicode_FromString("m");
+    py_key = PyUnicode_InternFromString("m");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'm' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->mtot_y));
+    set_float(py_dict, py_key, results->mtot_y);
 
     // Get total z-directional moment
-    py_key = PyUnicode_FromString("n");
+    py_key = PyUnicode_InternFromString("n");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'n' in vlmdata.forces" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->mtot_z));
+    set_float(py_dict, py_key, results->mtot_z);
 
     // GET AERODYNAMIC COEFFICIENTS DICT
 
@@ -1240,91 +1257,91 @@ static int set_resultstruct( PyObject* py_data, resultstruct* results )
         std::cout << "ERROR: vlmdata does not have attribute 'coeffs'" << std::endl;
         return ERR_ATTRIBUTE;
     }
-    py_attr = PyObject_GetAttrString(py_data, "coeffs");
+    py_attr = get_attr(py_data, "coeffs");
     py_dict = py_attr;
 
     // SET AERODYNAMIC COEFFICIENTS
 
     // Get total x-directional force coefficient
-    py_key = PyUnicode_FromString("x");
+    py_key = PyUnicode_InternFromString("x");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'x' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cx));
+    set_float(py_dict, py_key, results->Cx);
 
     // Get total y-directional force coefficient
-    py_key = PyUnicode_FromString("y");
+    py_key = PyUnicode_InternFromString("y");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'y' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cy));
+    set_float(py_dict, py_key, results->Cy);
 
     // Get total z-directional force coefficient
-    py_key = PyUnicode_FromString("z");
+    py_key = PyUnicode_InternFromString("z");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'z' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cz));
+    set_float(py_dict, py_key, results->Cz);
 
     // Get total drag force coefficient
-    py_key = PyUnicode_FromString("D");
+    py_key = PyUnicode_InternFromString("D");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'D' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->CD));
+    set_float(py_dict, py_key, results->CD);
 
     // Get total side force coefficient
-    py_key = PyUnicode_FromString("C");
+    py_key = PyUnicode_InternFromString("C");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'C' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->CC));
+    set_float(py_dict, py_key, results->CC);
 
     // Get total lift force coefficient
-    py_key = PyUnicode_FromString("L");
+    py_key = PyUnicode_InternFromString("L");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'L' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->CL));
+    set_float(py_dict, py_key, results->CL);
 
     // Get total x-directional moment coefficient
-    py_key = PyUnicode_FromString("l");
+    py_key = PyUnicode_InternFromString("l");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'l' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cl));
+    set_float(py_dict, py_key, results->Cl);
 
     // Get total y-directional moment coefficient
-    py_key = PyUnicode_FromString("m");
+    py_key = PyUnicode_InternFromString("m");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'm' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cm));
+    set_float(py_dict, py_key, results->Cm);
 
     // Get total z-directional moment coefficient
-    py_key = PyUnicode_FromString("n");
+    py_key = PyUnicode_InternFromString("n");
     if (!PyDict_Contains(py_dict, py_key))
     {
         std::cout << "ERROR: no key 'n' in vlmdata.coeffs" << std::endl;
         return ERR_KEY;
     }
-    PyDict_SetItem(py_dict, py_key, PyFloat_FromDouble(results->Cn));
+    set_float(py_dict, py_key, results->Cn);
 
     return ERR_SUCCESS;
 }
-- 
2.43.0


From b3ba30c620275b2439010e56f5bc837c7e93df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 19/28] fix: keep CPACS wing segments consistent when root and
 tip are exchanged

The order of the vertices was decided separately for leading and trailing
edge, which crosses the edges of a twisted fin, and airfoils and controls of
an exchanged segment kept their old place.
---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 46 ++++++++++++++++++----
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index c484e3d..d392266 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -110,8 +110,8 @@ def get_aircraft_wings(aircraft, settings, tixi, tigl):
         aircraft.wings[wing_uid].symmetry = tigl.wingGetSymmetry(idx_wing)
 
         # For each wing we set segment and control data
-        get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
-        get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl)
+        reversed_segments = get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
+        get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl, reversed_segments)
 
 
 def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl):
@@ -125,6 +125,9 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         :idx_wing: Wing index
         :tixi: Tixi handle
         :tigl: Tigl handle
+
+    Returns:
+        :reversed_segments: List with UIDs of segments whose root and tip have been exchanged
     """
 
     xpath_segments = xpath_wing + '/segments'
@@ -135,6 +138,9 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
 
     logger.debug(f"Loading segments of wing '{wing_uid}'...")
 
+    # Segments for which CPACS counts 'eta' from tip to root
+    reversed_segments = []
+
     # ---------- Iterate through segments of given wing ----------
     num_segments = tixi.getNamedChildrenCount(xpath_segments, 'segment')
     for idx_segment in range(1, num_segments + 1):
@@ -161,10 +167,12 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         # Re-order vertices
         # * A, D should be at root and B, C at tip
         # * This is done so that the segments (thus panel normals point in the correct direction)
-        if b[1] - a[1] < 0.0 or (b[1] == a[1] and b[2] - a[2] < 0.0):
-            a, b, c, d = b, a, c, d
-        if c[1] - d[1] < 0.0 or (c[1] == d[1] and c[2] - d[2] < 0.0):
-            a, b, c, d = a, b, d, c
+        # * Leading edges which do not change in 'y' (apart from numerical noise) are judged by 'z'
+        tol = 1e-6*max(abs(b[i] - a[i]) for i in range(3))
+        is_reversed = b[1] - a[1] < -tol or (abs(b[1] - a[1]) <= tol and b[2] - a[2] < 0.0)
+        if is_reversed:
+            a, b, c, d = b, a, d, c
+            reversed_segments.append(segment_uid)
         if d[0] - a[0] < 0.0:
             a, b, c, d = d, b, c, a
         if c[0] - b[0] < 0.0:
@@ -181,8 +189,20 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         # ----- Set airfoils -----
         get_aircraft_airfoils(aircraft, settings, tigl, wing_uid, segment_uid, idx_wing, idx_segment)
 
+        if is_reversed:
+            airfoils = aircraft.wings[wing_uid].segments[segment_uid].airfoils
+            airfoils['inner'], airfoils['outer'] = airfoils['outer'], airfoils['inner']
+
+    # A wing described from tip to root: list the segments from root to tip
+    if len(reversed_segments) == num_segments:
+        segments = aircraft.wings[wing_uid].segments
+        for segment_uid in list(segments)[-2::-1]:
+            segments.move_to_end(segment_uid)
 
-def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
+    return reversed_segments
+
+
+def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl, reversed_segments=()):
     """
     Extract the controls surfaces
 
@@ -192,6 +212,7 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
         :idx_wing: Index of the wing
         :tixi: Tixi handle
         :tigl: Tigl handle
+        :reversed_segments: List with UIDs of segments whose root and tip have been exchanged
 
     .. warning::
 
@@ -267,6 +288,17 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                     _, _, _, xsi_h1 = tigl.get_eta_xsi(name_comp_section, etaLE_ib, hingeXsi_ib)
                     _, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, etaLE_ob, hingeXsi_ob)
 
+                # Root and tip of the segments have been exchanged
+                if segment_uid_inner in reversed_segments:
+                    eta_inner = 1.0 - eta_inner
+                if segment_uid_outer in reversed_segments:
+                    eta_outer = 1.0 - eta_outer
+                if segment_uid_inner in reversed_segments and segment_uid_outer in reversed_segments:
+                    segment_uid_inner, segment_uid_outer = segment_uid_outer, segment_uid_inner
+                    eta_inner, eta_outer = eta_outer, eta_inner
+                    xsi_inner, xsi_outer = xsi_outer, xsi_inner
+                    xsi_h1, xsi_h2 = xsi_h2, xsi_h1
+
                 # ADD WING CONTROL AND SET ATTRIBUTES
                 control = aircraft.wings[wing_uid].add_control(control_uid)
                 control.device_type = 'flap' if device_pos == 'trailing' else 'slat'
-- 
2.43.0


From 2c490e7c97fc0b861d424fe84645ca49d07dd084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 20/28] fix: set CPACS control deflections after all wings have
 been loaded

A deflection for a control of a later wing was refused.
---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index d392266..1c1f700 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -113,6 +113,9 @@ def get_aircraft_wings(aircraft, settings, tixi, tigl):
         reversed_segments = get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
         get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl, reversed_segments)
 
+    # Deflections can be set for the controls of any wing
+    set_control_deflections(aircraft, tixi)
+
 
 def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl):
     """
@@ -317,7 +320,16 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl, reversed_seg
                 control.segment_uid['inner'] = segment_uid_inner
                 control.segment_uid['outer'] = segment_uid_outer
 
-    # ----- CONTROL SURFACE DEFLECTION -----
+
+def set_control_deflections(aircraft, tixi):
+    """
+    Set the control deflections given in the tool specific part and check all controls
+
+    Args:
+        :aircraft: Aircraft model
+        :tixi: Tixi handle
+    """
+
     try:
         n_control_dev = tixi.getNamedChildrenCount(XPATHS.TOOLSPEC_CONTROL, 'controlDevice')
     except:
-- 
2.43.0


From d8887417acdc22bc13600ba2e98e8578665576c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 21/28] fix: find CPACS segments with special characters in
 their UID for controls

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index 1c1f700..d6efa55 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -291,6 +291,10 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl, reversed_seg
                     _, _, _, xsi_h1 = tigl.get_eta_xsi(name_comp_section, etaLE_ib, hingeXsi_ib)
                     _, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, etaLE_ob, hingeXsi_ob)
 
+                # Segments are stored without special characters in the UID
+                segment_uid_inner = parse_str(segment_uid_inner)
+                segment_uid_outer = parse_str(segment_uid_outer)
+
                 # Root and tip of the segments have been exchanged
                 if segment_uid_inner in reversed_segments:
                     eta_inner = 1.0 - eta_inner
-- 
2.43.0


From e63b0b59c3604ceed55438c1b3ba5685f01db352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 22/28] fix: do not redirect airfoil files outside of the
 project when saving

---
 src/lib/pytornado/fileio/native/aircraft.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index 51e5061..15f36dd 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -159,13 +159,10 @@ def save(aircraft, settings):
 
             segment_entry['airfoils'] = {}
             for key, value in segment.airfoils.items():
-                # If airfoil is a project file or a "blade" file, make sure to save as relative path
+                # If airfoil is a file of the project, make sure to save as relative path
                 # Note: Airfoil definition may also be for instance "NACA1234"
                 if value.startswith(os.path.join(settings.paths('d_airfoils'), '')):
                     value = os.path.relpath(value, start=settings.paths('root'))
-                elif "blade." in value:
-                    # Make path relative!
-                    value = os.path.join(PATHS.DIR.AIRFOILS, os.path.basename(value))
                 segment_entry['airfoils'][key] = value
 
             segment_entry['panels'] = {}
-- 
2.43.0


From cc095e45cfbe7b85937a727306f41b9eab97197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 23/28] fix: control surfaces on very small segments are no
 longer refused

xsi_interpol() compared an unnormalised product of lengths with an absolute
tolerance, so that a wing of a few millimetres (or centimetres, when narrow)
raised 'No intersection with plane'.
---
 src/lib/pytornado/objects/aircraft.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 3b1c625..709b90d 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -2119,6 +2119,10 @@ def xsi_interpol(segment_vertices, rel_inner, rel_outer, eta):
     segment_normal = np.cross(b-a, d-a)
     intersect_plane_normal = np.cross(segment_normal, p_lower-p_upper)
 
+    # Only the directions matter (the check for parallelism must not depend on the size of the segment)
+    intersect_plane_normal = intersect_plane_normal/np.linalg.norm(intersect_plane_normal)
+    insegment_direction = insegment_direction/np.linalg.norm(insegment_direction)
+
     p_intersect = get_plane_line_intersect(intersect_plane_normal, p_upper, insegment_direction, p_inner)
     xsi_interpol = np.linalg.norm(p_intersect-p_upper)/np.linalg.norm(p_lower-p_upper)
 
-- 
2.43.0


From 001301c61e1158de2249de271243bc2ecf5698c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 24/28] fix: control surfaces close to other division lines do
 not end at the wrong line

The outer edge of a control was moved to the end of the segment (or to the next
division line) if it was closer than 1% to an existing division line, or if it
differed from it by a rounding error. Edges which differed only by a rounding
error could also create strips without width.
---
 src/lib/pytornado/objects/aircraft.py | 31 +++++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 709b90d..070465a 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -65,6 +65,8 @@ TOL = 1.0e-02
 
 MIN_XSI_LIMIT = 0.01
 MIN_ETA_LIMIT = 0.01
+# Division lines which are closer than this are considered to be identical (rounding errors)
+SAME_ETA_LIMIT = 1e-9
 
 # Common schema entries
 SCHEMA_FLOAT_01 = {'type': float, '>=': 0.0, '<=': 1.0}
@@ -738,7 +740,7 @@ class WingSegment:
         # Create a segment airfoil as a "morphable" airfoil
         self.segment_airfoil = MorphAirfoil(airfoil_dict['inner'], airfoil_dict['outer'])
 
-    def add_subdivision(self, eta_a, eta_d, ignore_inval_eta=False):
+    def add_subdivision(self, eta_a, eta_d, ignore_inval_eta=False, min_dist=MIN_ETA_LIMIT):
         """
         Add a subdivision for the current segment
 
@@ -753,6 +755,7 @@ class WingSegment:
             :eta_a: (float) upper relative position of the division line
             :eta_d: (float) upper relative position of the division line
             :ignore_inval_eta: (bool) optional parameter to ignore invalid eta values
+            :min_dist: (float) optional minimum distance to the existing division line
 
         Returns:
             :subvivision: (obj) newly created subdivision object
@@ -767,6 +770,11 @@ class WingSegment:
             else:
                 raise ValueError("eta must be in range (0, 1)")
 
+        # A division which only differs due to rounding errors is the existing division
+        for subdivision in self.subdivision.values():
+            if abs(eta_a - subdivision.rel_vertices['eta_a']) < SAME_ETA_LIMIT:
+                return subdivision
+
         idx_new = len(self.subdivision)
         idx_prev, prev_subdivision, prev_is_on_border = self._get_subdiv_at_eta(eta_a)
 
@@ -774,7 +782,7 @@ class WingSegment:
             logger.debug(f"Refusing to create new division at existing division (eta_a = {eta_a:.3f})")
             return self.subdivision[idx_prev]
 
-        if (eta_a - prev_subdivision.rel_vertices['eta_a']) < MIN_ETA_LIMIT:
+        if (eta_a - prev_subdivision.rel_vertices['eta_a']) < min_dist:
             logger.debug("Refusing to create a subdivision close to existing division "
                          "(Delta eta_a = {:.3f})".format(eta_a - prev_subdivision.rel_vertices['eta_a']))
             return self.subdivision[idx_prev]
@@ -859,7 +867,7 @@ class WingSegment:
         """
 
         # Account for numerical inaccuracies
-        eta_a += MIN_ETA_LIMIT/10
+        eta_a += SAME_ETA_LIMIT
 
         eta_diff_min = 1
         outer_neighbour = None
@@ -898,11 +906,20 @@ class WingSegment:
             xsi_h2 = xsi2
             logger.warning("Hinge position xsi_h2 is not defined (assuming xsi2).")
 
+        # Nothing of the control lies on this segment
+        if eta_b - eta_a < SAME_ETA_LIMIT:
+            return None
+
+        # If the outer edge is on an existing division line (or the tip), the control must end exactly there
+        for eta_line in [sd.rel_vertices['eta_b'] for sd in self.subdivision.values()]:
+            if abs(eta_b - eta_line) < SAME_ETA_LIMIT:
+                eta_b = eta_line
+
         # Add a first subdivision (sd1) beginning at eta_a
-        if eta_a == 0:
+        if eta_a < SAME_ETA_LIMIT:
             sd1 = self.subdivision[0]
         else:
-            sd1 = self.add_subdivision(eta_a, eta_a)
+            sd1 = self.add_subdivision(eta_a, eta_a, min_dist=SAME_ETA_LIMIT)
 
         # Where does sd1 end? (i.e. what is the eta_b position?)
         eta_b_sd1 = sd1.rel_vertices['eta_b']
@@ -916,7 +933,7 @@ class WingSegment:
 
         # CASE 2: There is no more subdivisions before eta_b
         elif eta_b < eta_b_sd1:
-            self.add_subdivision(eta_b, eta_b)
+            self.add_subdivision(eta_b, eta_b, min_dist=SAME_ETA_LIMIT)
 
         # CASE 3: The newly created subdivision ends before desired line
         elif eta_b > eta_b_sd1:
@@ -955,7 +972,7 @@ class WingSegment:
 
             # If the last outer neighbour is larger than required, make a subdivision
             if eta_b < outer_neighbour.rel_vertices['eta_b']:
-                self.add_subdivision(eta_b, eta_b)
+                self.add_subdivision(eta_b, eta_b, min_dist=SAME_ETA_LIMIT)
 
         # Add subarea for all subdivisions
         for row in sd_list:
-- 
2.43.0


From 2b0d74aebea245a09124e895d4b0188ab55c427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 25/28] fix: create all spanwise panels of fine meshes

With 100 or more spanwise panels on a segment, division lines were left out.
---
 src/lib/pytornado/aero/vlm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 37f21c5..6a6e4df 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -39,7 +39,7 @@ from pytornado.objects.vlm_struct import VLMLattice
 import pytornado.aero.c_vlm as c_vlm
 import pytornado.objects.objecttools as ot
 from pytornado.objects.vlm_struct import BookKeepingEntry
-from pytornado.objects.aircraft import get_abs_segment_point_coords
+from pytornado.objects.aircraft import get_abs_segment_point_coords, MIN_ETA_LIMIT
 
 logger = logging.getLogger(__name__)
 
@@ -224,10 +224,13 @@ def pre_panelling(aircraft):
     for this_segment, _ in ot.all_segments(aircraft):
         segment = this_segment[2]
 
+        # Fine meshes: all requested division lines must be created
+        min_dist = min(MIN_ETA_LIMIT, 0.5/segment.panels['num_s'])
+
         for eta in np.linspace(0, 1, segment.panels['num_s']+1):
             if (eta == 0) or (eta == 1):
                 continue
-            segment.add_subdivision(eta, eta, ignore_inval_eta=True)
+            segment.add_subdivision(eta, eta, ignore_inval_eta=True, min_dist=min_dist)
 
 
 def gen_lattice(aircraft, state, settings, make_new_subareas=True):
-- 
2.43.0


From a747c6f81bc4b68de89906e0296f608a8f307ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:56 +0000
Subject: [PATCH 26/28] fix: segments defined by geometric properties

Segments which are defined by a reference point (or an edge) and geometric
properties were always refused. Missing vertices and properties of value zero
were not recognised, and the sign of the yaw angle differed from that of the
yaw angle computed from vertices.
---
 src/lib/pytornado/objects/aircraft.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 070465a..513f665 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1050,16 +1050,16 @@ class WingSegment:
 
         # ----- Check provided geometric properties -----
         # All geometric properties provided
-        if all(v for v in self.geometry.values()):
+        if all(v is not None for v in self.geometry.values()):
             required = ['a', 'b', 'c', 'd', 'ad', 'bc', 'abcd']
         # All geometric properties provided except for inner edge
-        elif all(v for k, v in self.geometry.items() if 'inner_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'inner_' not in k):
             required = ['ad', 'abcd']
         # All geometric properties provided except for outer edge
-        elif all(v for k, v in self.geometry.items() if 'outer_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'outer_' not in k):
             required = ['bc', 'abcd']
         # Some geometric properties provided, but not enough
-        elif any(v for v in self.geometry.values()):
+        elif any(v is not None for v in self.geometry.values()):
             required = ['abcd']
         # No geometric properties provided
         else:
@@ -1089,7 +1089,7 @@ class WingSegment:
 
             tan_ai = tan(radians(self.geometry['inner_alpha']))
             cos_bi = cos(radians(self.geometry['inner_beta']))
-            sin_bi = sin(radians(self.geometry['inner_beta']))
+            sin_bi = -sin(radians(self.geometry['inner_beta']))
 
             r_i = self.geometry['inner_chord']/sqrt(1.0 + tan_ai**2.0*cos_bi**2.0)
 
@@ -1133,12 +1133,12 @@ class WingSegment:
             logger.debug(f"--> Inner_beta = {self.geometry['inner_beta']}")
 
         # ----- Generate edge B, C -----
-        if not ('a' in provided and 'b' in provided):
+        if not ('b' in provided and 'c' in provided):
             logger.debug("Computing chord BC...")
 
             tan_ao = tan(radians(self.geometry['outer_alpha']))
             cos_bo = cos(radians(self.geometry['outer_beta']))
-            sin_bo = sin(radians(self.geometry['outer_beta']))
+            sin_bo = -sin(radians(self.geometry['outer_beta']))
 
             r_o = self.geometry['outer_chord']/sqrt(1.0 + tan_ao*tan_ao*cos_bo*cos_bo)
 
@@ -1324,10 +1324,10 @@ class WingSegment:
                 a_y, b_y, c_y, d_y = a_y, c_y, b_y, d_y
                 a_z, b_z, c_z, d_z = a_z, c_z, b_z, d_z
 
-            self.vertices['a'] = [a_x, a_y, a_z]
-            self.vertices['b'] = [b_x, b_y, b_z]
-            self.vertices['c'] = [c_x, c_y, c_z]
-            self.vertices['d'] = [d_x, d_y, d_z]
+            self.vertices['a'] = np.array([a_x, a_y, a_z])
+            self.vertices['b'] = np.array([b_x, b_y, b_z])
+            self.vertices['c'] = np.array([c_x, c_y, c_z])
+            self.vertices['d'] = np.array([d_x, d_y, d_z])
 
         logger.debug(f"--> Vertex a = {self.vertices['a']}")
         logger.debug(f"--> Vertex b = {self.vertices['b']}")
@@ -1346,6 +1346,8 @@ class WingSegment:
 
         # Convert to NUMPY array
         for key in ['a', 'b', 'c', 'd']:
+            if self.vertices[key] is None:
+                continue
             self.vertices[key] = np.array(self.vertices[key], dtype=float, order='C')
 
     def check_geometry(self):
-- 
2.43.0


From d3dee7c679e213275350e87f646f40c10a4b344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 27/28] fix: dihedral of a segment is measured at its axis

For twisted segments the vertical offset of the axis had the wrong sign.
---
 src/lib/pytornado/objects/aircraft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 513f665..fb38a17 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1189,13 +1189,13 @@ class WingSegment:
 
         # axi_x = r_i*self.geometry['inner_axis']*cos_bi
         axi_y = r_i*self.geometry['inner_axis']*sin_bi
-        axi_z = r_i*self.geometry['inner_axis']*cos_bi*tan_ai
-        # Offset of point A wrt axis point (dihedral line) on AD
+        axi_z = -r_i*self.geometry['inner_axis']*cos_bi*tan_ai
+        # Offset of axis point (dihedral line) on AD wrt point A
 
         # axo_x = r_o*self.geometry['outer_axis']*cos_bo
         axo_y = r_o*self.geometry['outer_axis']*sin_bo
-        axo_z = r_o*self.geometry['outer_axis']*cos_bo*tan_ao
-        # Offset of point B wrt axis point (dihedral line) on BC
+        axo_z = -r_o*self.geometry['outer_axis']*cos_bo*tan_ao
+        # Offset of axis point (dihedral line) on BC wrt point B
 
         # Relative y, z-offset between axis on B, C-edge and axis on A, B-edge
         axs_y = axo_y - axi_y
-- 
2.43.0


From 86e4a41cc91197148d2c173cbaac3840d81a4756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:48 +0000
Subject: [PATCH 28/28] fix: refuse singular linear systems

The exit code of LAPACK's dgesv was ignored.  For a singular system, for
instance with coinciding wings, dgesv returns the right-hand side, which was
taken for the circulation and written to the result files.
---
 src/lib/pytornado/aero/vlm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 6a6e4df..c847081 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -482,9 +482,13 @@ def solver(vlmdata):
     """
 
     logger.info("Solving linear system...")
-    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], _ \
+    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], info \
         = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)
 
+    # There is no solution in this case (LAPACK returns the right-hand side)
+    if info != 0:
+        raise np.linalg.LinAlgError("The linear system is singular (coinciding or degenerate panels?)")
+
 ########
 ########
 ########
-- 
2.43.0

