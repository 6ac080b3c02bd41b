From 6f47dad9243f30986836670a1017e6749c72e143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 01/14] fix: evaluate line-of-sight attenuation on every lrprop
 call

In area mode the line-of-sight coefficients are computed once and kept, but the
evaluation of aref sat inside the same one-time block, so every later
line-of-sight distance returned the aref of the previous call.
---
 src/itmlogic/lrprop.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 531cff9..24fea2c 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -157,11 +157,11 @@ def lrprop(d, prop):
             prop['ael'] = a2 - prop['ak1'] * d2 - prop['ak2'] * np.log(d2)
             prop['wlos'] = 1
 
-            if prop['dist'] > 0:
-                prop['aref'] = (
-                    prop['ael'] + prop['ak1'] *
-                    prop['dist'] + prop['ak2'] * np.log(prop['dist'])
-                    )
+        if prop['dist'] > 0:
+            prop['aref'] = (
+                prop['ael'] + prop['ak1'] *
+                prop['dist'] + prop['ak2'] * np.log(prop['dist'])
+                )
 
     if prop['dist'] <= 0 or prop['dist'] >= prop['dlsa']:
 
-- 
2.43.0


From 8127d79add5bd2b5da390903a50a6293b30c6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:46 +0000
Subject: [PATCH 02/14] fix: test terminal 1's own horizon distance when
 setting kwx in lrprop

The upper limit on the first horizon distance compared dl of terminal 2 with
the smooth-earth distance of terminal 1.
---
 src/itmlogic/lrprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 24fea2c..916e1a6 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -62,7 +62,7 @@ def lrprop(d, prop):
 
         if (abs(prop['the'][0]) > 0.2 or
             prop['dl'][0] < 0.1 * prop['dls'][0] or
-            prop['dl'][1] > 3 * prop['dls'][0]):
+            prop['dl'][0] > 3 * prop['dls'][0]):
             prop['kwx'] = max(prop['kwx'], 3)
 
         if (abs(prop['the'][1]) > 0.2 or
-- 
2.43.0


From f234407569afec6d8d24145caf1ca85d35e950b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:46 +0000
Subject: [PATCH 03/14] fix: return the inadmissible-scatter marker from ascat

When r1 and r2 are both below 0.2 the scatter attenuation is undefined (4.62);
the 1001 marker was set but then overwritten by the general formula, so lrprop
never disabled the scatter range.
---
 src/itmlogic/scatter_attenuation/ascat.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/itmlogic/scatter_attenuation/ascat.py b/src/itmlogic/scatter_attenuation/ascat.py
index ebe6fbf..e319623 100644
--- a/src/itmlogic/scatter_attenuation/ascat.py
+++ b/src/itmlogic/scatter_attenuation/ascat.py
@@ -34,6 +34,7 @@ def ascat(d, prop):
 
         if r1 < 0.2 and r2 < 0.2:
             prop['ascat1'] = 1001
+            return prop
 
         ss = (d - prop['ad']) / (d + prop['ad'])
 
@@ -61,9 +62,7 @@ def ascat(d, prop):
         if h0 > 15 and prop['h0s'] >= 0:
             h0 = prop['h0s']
 
-        if prop['ascat1'] != 1001:
-
-            prop['h0s'] = h0
+        prop['h0s'] = h0
 
     th = prop['tha'] + d * prop['gme']
 
-- 
2.43.0


From cad550f75a6da69849841adad69a9d61de70a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:47 +0000
Subject: [PATCH 04/14] fix: widen, not shift, an empty fitting interval in
 zlsq1

When x1 and x2 fall on the same profile point the interval is to grow by one
point on each side; the right end moved left instead, leaving an empty interval
and a ZeroDivisionError.
---
 src/itmlogic/preparatory_subroutines/zlsq1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/zlsq1.py b/src/itmlogic/preparatory_subroutines/zlsq1.py
index 5321c07..8e6bd21 100644
--- a/src/itmlogic/preparatory_subroutines/zlsq1.py
+++ b/src/itmlogic/preparatory_subroutines/zlsq1.py
@@ -35,7 +35,7 @@ def zlsq1(z, x1, x2):
 
     if xb <= xa:
         xa = max(xa - 1, 0)
-        xb = xn - max(xn - xb + 1, 0)
+        xb = xn - max(xn - xb - 1, 0)
 
     ja = xa
     jb = xb
-- 
2.43.0


From 533f438d9fde3b87f27cb4d66b8f8465dcc5d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 05/14] fix: use the last profile point for terminal 2 on
 line-of-sight paths

qlrpfl took the elevation one point before the receiver (pfl[np+1]) for its
effective height; the point under terminal 2 is pfl[np+2], as used on
beyond-horizon paths.
---
 src/itmlogic/preparatory_subroutines/qlrpfl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/qlrpfl.py b/src/itmlogic/preparatory_subroutines/qlrpfl.py
index 7ffe6dd..a24287c 100644
--- a/src/itmlogic/preparatory_subroutines/qlrpfl.py
+++ b/src/itmlogic/preparatory_subroutines/qlrpfl.py
@@ -40,7 +40,7 @@ def qlrpfl(prop):
         prop['he'] = []
         za, zb = zlsq1(prop['pfl'], xl[0], xl[1])
         prop['he'].append(prop['hg'][0] + max(prop['pfl'][2] - za, 0))
-        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+1] - zb, 0))
+        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+2] - zb, 0))
 
         for j in range(0, 2):
             prop['dl'][j] = (
-- 
2.43.0


From f4bc4ff02a164471a15ea6f8f5945a770b0534f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:49 +0000
Subject: [PATCH 06/14] fix: leave masked pixels out of the interdecile range

rasterstats passes a masked array holding the bounding box of the cell;
np.percentile ignores the mask, so pixels outside the cell and no-data values
entered the terrain irregularity (or made it fail).
---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index fa6efe2..a4eb0b5 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -112,7 +112,7 @@ def interdecile_range(x):
         The terrain irregularity parameter.
 
     """
-    q90, q10 = np.percentile(x, [90, 10])
+    q90, q10 = np.percentile(np.ma.compressed(x), [90, 10])
 
     interdecile_range = int(round(q90 - q10, 0))
 
-- 
2.43.0


From 81706d81d10927b4d714631dee9315ac751688e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 07/14] fix: sample the terrain profile up to the receiver

The last sample was taken one step short of the end of the line, while the
profile is used as spanning the whole distance.
---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index a4eb0b5..579d06e 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -161,7 +161,7 @@ def terrain_p2p(dem, line):
 
     # Interpolate along line to get sampling points
     num_samples = determine_num_samples(distance_m)
-    steps = np.interp(range(num_samples), [0,num_samples], [0, line_geom.length])
+    steps = np.interp(range(num_samples), [0, num_samples - 1], [0, line_geom.length])
     point_geoms = [line_geom.interpolate(currentdistance) for currentdistance in steps]
 
     # Sample elevation profile
-- 
2.43.0


From fe43336cc55b85238d2a5a512cfc7c69efa6b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:51 +0000
Subject: [PATCH 08/14] fix: use the complex ground impedance in the area
 runners

As in qlrps and the point-to-point runner (Eqn 1.4); the conductivity was
dropped for horizontal polarization and half dropped for vertical.
---
 scripts/area.py        | 2 +-
 scripts/area_2tiles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/area.py b/scripts/area.py
index 6dd5b03..7d5b399 100644
--- a/scripts/area.py
+++ b/scripts/area.py
@@ -161,7 +161,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
diff --git a/scripts/area_2tiles.py b/scripts/area_2tiles.py
index b9fee7d..d22d8a7 100644
--- a/scripts/area_2tiles.py
+++ b/scripts/area_2tiles.py
@@ -162,7 +162,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
-- 
2.43.0


From 65691180c4eaaffb42d6921710370498d42ccbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:51 +0000
Subject: [PATCH 09/14] fix: use the profile passed to run_itmlogic in
 pimter.py

The function read a module-level variable instead of its argument.
---
 scripts/pimter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index 6bd4d0d..20a04da 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -103,7 +103,7 @@ def run_itmlogic(surface_profile_m, distance_km):
 
     PFL.append(len(distance_km)-1)
     PFL.append(distance_km[1] - distance_km[0])
-    PFL = PFL + terrain_height_no_tree
+    PFL = PFL + surface_profile_m
 
     #Length of profile (km)
     prop['d'] = distance_km[-1]/1000
-- 
2.43.0


From 8e23c1228cad9ae82b59a3c511b7a631c7aac354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:52 +0000
Subject: [PATCH 10/14] fix: convert pimter.py percentages to fractions for
 qerfi

50 was passed instead of 0.5, so the median was reported at a deviate of -4.75.
---
 scripts/pimter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index 20a04da..97c5a29 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -86,8 +86,8 @@ def run_itmlogic(surface_profile_m, distance_km):
     DB = 8.685890
     NC = len(qc)
     NR = len(qr)
-    ZR = qerfi(qr) #ZR = qerfi(qr / 100)
-    ZC = qerfi(qc) #ZC = qerfi(qc / 100)
+    ZR = qerfi([x / 100 for x in qr])
+    ZC = qerfi([x / 100 for x in qc])
 
     # Inverse Earth radius
     prop['gma']  = 157E-9
-- 
2.43.0


From 3a1b0c3feac0692d803bcaa29c251d9e327593c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:53 +0000
Subject: [PATCH 11/14] fix: pass the axis of sort_index by keyword in vis.py

Positional arguments were removed from DataFrame.sort_index, so no figure
could be drawn.
---
 vis/vis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vis/vis.py b/vis/vis.py
index 1e79341..1a32f27 100644
--- a/vis/vis.py
+++ b/vis/vis.py
@@ -30,7 +30,7 @@ def plot_area_results(path):
     """
     data = pd.read_csv(path)
 
-    data = data.set_index(['distance_km','confidence_level_%']).unstack().swaplevel(0,1,1).sort_index(1)
+    data = data.set_index(['distance_km','confidence_level_%']).unstack().swaplevel(0,1,1).sort_index(axis=1)
     ax =  data.plot.line()
     ax.set_xlabel("Distance (km)")
     ax.set_ylabel("Propagation Loss (dB)")
@@ -58,7 +58,7 @@ def plot_p2p_results(path):
 
     data = data.set_index(
         ['reliability_level_%', 'confidence_level_%']
-        ).unstack().swaplevel(0,1,1).sort_index(1)
+        ).unstack().swaplevel(0,1,1).sort_index(axis=1)
 
     ax =  data.plot.bar(rot=0)
     ax.set_xlabel("Reliability (%)")
-- 
2.43.0


From 591cc17f0acc88d81d53d32ef0fd3ba2dcf04e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:07 +0000
Subject: [PATCH 12/14] fix: report the dominant mode of the region the path
 lies in

The point-to-point runners announced diffraction as the dominant mode on
line-of-sight paths, and nothing on paths in the diffraction region.
---
 scripts/p2p.py        | 9 +++++----
 scripts/p2p_2tiles.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/scripts/p2p.py b/scripts/p2p.py
index 6752366..fa48ce5 100644
--- a/scripts/p2p.py
+++ b/scripts/p2p.py
@@ -197,10 +197,11 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
-        print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
-        print('Tropospheric scatter is the dominant mode')
+    if prop['dist'] >= prop['dlsa']:
+        if prop['dist'] <= prop['dx']:
+            print('Diffraction is the dominant mode')
+        else:
+            print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
     print('Free space value {} db'.format(str(fs)))
diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 90d4e9b..96ad30f 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -195,10 +195,11 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
-        print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
-        print('Tropospheric scatter is the dominant mode')
+    if prop['dist'] >= prop['dlsa']:
+        if prop['dist'] <= prop['dx']:
+            print('Diffraction is the dominant mode')
+        else:
+            print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
     print('Free space value {} db'.format(str(fs)))
-- 
2.43.0


From 9fe28f98c365b06a70711afc05b0e3a3d8ee635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:28 +0000
Subject: [PATCH 13/14] fix: create the shapes folder before p2p_2tiles writes
 to it

The two-tile script opened data/processed/shapes/p2p_2tiles.shp without
creating the folder, so it failed in a fresh checkout unless p2p.py had been
run first.
---
 scripts/p2p_2tiles.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 96ad30f..df66a5f 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -425,8 +425,11 @@ if __name__ == '__main__':
         'properties': {'elevation': 'float'}
     }
 
+    if not os.path.exists(directory_shapes):
+        os.makedirs(directory_shapes)
+
     crs = from_epsg(4326)
-    with fiona.open('data/processed/shapes/p2p_2tiles.shp',
+    with fiona.open(os.path.join(directory_shapes, 'p2p_2tiles.shp'),
                     'w',
                     driver='ESRI Shapefile',
                     crs=crs,
-- 
2.43.0


From c9503b210b583c8275a8c610a998a3a28adcfcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:37 +0000
Subject: [PATCH 14/14] fix: leave ground beyond the raster out of the area
 terrain irregularity

The read beyond the raster is filled with zeros when the raster declares no
nodata value, so a cell that overhangs its tile counted sea level there.
---
 scripts/terrain_module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index 579d06e..980426d 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -20,7 +20,7 @@ import numpy as np
 from fiona.crs import from_epsg
 from rasterstats import gen_zonal_stats, point_query
 from shapely.ops import transform
-from shapely.geometry import Point, LineString, mapping
+from shapely.geometry import Point, LineString, box, mapping
 
 
 def terrain_area(dem, lon, lat, cell_range):
@@ -49,6 +49,10 @@ def terrain_area(dem, lon, lat, cell_range):
     # Buffer around cell point
     cell_area = geodesic_point_buffer(lon, lat, cell_range)
 
+    # Leave out what lies beyond the raster, which has no elevations to offer
+    with rasterio.open(dem) as src:
+        cell_area = cell_area.intersection(box(*src.bounds))
+
     # Calculate raster stats
     stats = next(gen_zonal_stats(
         [cell_area],
-- 
2.43.0

