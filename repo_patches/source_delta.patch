From 83d57f530d0f8da229d8d35c27cefa10bc1a96d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 01/76] fix: allow the default boundary latitude to be
 requested with None

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index c72db3b..9b6ef25 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -179,7 +179,7 @@ class OCBoundary(object):
         self.boundary_lat = 74.0 if boundary_lat is None else boundary_lat
 
         # Ensure that the boundary is in the correct hemisphere
-        if np.sign(boundary_lat) != np.sign(hemisphere):
+        if np.sign(self.boundary_lat) != np.sign(hemisphere):
             self.boundary_lat *= -1.0
 
         # If possible, load the data.  Any boundary correction is applied here.
-- 
2.43.0


From 59214df86b3046da47fb56f822e2fe2499229687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 02/76] fix: represent boundary objects that loaded no records

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 9b6ef25..1629f57 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -197,8 +197,8 @@ class OCBoundary(object):
         class_name = repr(self.__class__).split("'")[1]
 
         # Get the start and end times
-        stime = None if self.dtime is None else self.dtime[0]
-        etime = None if self.dtime is None else self.dtime[-1]
+        stime = None if self.records == 0 else self.dtime[0]
+        etime = None if self.records == 0 else self.dtime[-1]
 
         # Format the function representations
         if self.rfunc is None:
-- 
2.43.0


From 87e019b1046973ad4f4286969b8e6ca2dd6d5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 03/76] fix: load boundary files that contain a single record

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 1629f57..5f072be 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -369,8 +369,8 @@ class OCBoundary(object):
             return
 
         # Read the OCB data
-        odata = np.rec.array(np.genfromtxt(self.filename, skip_header=hlines,
-                                           dtype=ldtype))
+        odata = np.rec.array(np.atleast_1d(np.genfromtxt(
+            self.filename, skip_header=hlines, dtype=ldtype)))
         oname = list(odata.dtype.names)
 
         # Load the data into the OCBoundary object
-- 
2.43.0


From bc6bf8511a626f844127f52b2267a026eba8cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 04/76] fix: normal_coord no longer overwrites the input
 latitude

Locations in the wrong hemisphere were set to NaN in the caller's array
(and integer input raised an error).  The dual boundary and VectorData
relied on the modified input, and now flag those locations themselves.
---
 ocbpy/_boundary.py   | 4 +++-
 ocbpy/ocb_scaling.py | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 5f072be..a819860 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -607,7 +607,8 @@ class OCBoundary(object):
         if np.any(np.sign(aacgm_lat) != self.hemisphere):
             if np.all(np.sign(aacgm_lat) != self.hemisphere):
                 return ocb_lat, ocb_mlt, r_corr
-            aacgm_lat[np.sign(aacgm_lat) != self.hemisphere] = np.nan
+            aacgm_lat = np.where(np.sign(aacgm_lat) == self.hemisphere,
+                                 aacgm_lat, np.nan)
 
         # Calculate the center of the OCB
         phi_cent_rad = np.radians(self.phi_cent[self.rec_ind])
@@ -1428,6 +1429,7 @@ class DualBoundary(object):
                                                            height=height,
                                                            method=method)
         bound_lat = np.array(ocb_lat)
+        aacgm_lat = np.where(np.isnan(ocb_lat), np.nan, aacgm_lat)
 
         if np.isnan(ocb_lat).all():
             if out_shape == ():
diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 0378157..1899d68 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -703,6 +703,10 @@ class VectorData(object):
         # Get the angle at the data vector appended by the AACGM and OCB poles
         self.calc_vec_pole_angle()
 
+        # Locations without boundary coordinates have no pole angle
+        self.pole_angle = np.where(np.isnan(self.ocb_lat), np.nan,
+                                   self.pole_angle)
+
         # Set the OCB and Vector quadrants
         if np.any(~np.isnan(self.pole_angle)):
             self.define_quadrants()
-- 
2.43.0


From 414cd08c08cf79e3d3e19a51f2f2472c339855c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 05/76] fix: get_aacgm_boundary_lat no longer alters or rejects
 the input MLT

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index a819860..dcf16a5 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -784,7 +784,7 @@ class OCBoundary(object):
         """
 
         # Ensure the boundary longitudes span from 0-360 degrees
-        aacgm_mlt = np.asarray(aacgm_mlt)
+        aacgm_mlt = np.array(aacgm_mlt, dtype=float)
         aacgm_mlt[aacgm_mlt < 0.0] += 24.0
         aacgm_mlt[aacgm_mlt >= 24.0] -= 24.0
 
-- 
2.43.0


From 0f4e471e3f305be0d7e710a3f2dfc0cbce85f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 06/76] fix: sign of sub-boundary indices past the end of the
 paired records

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index dcf16a5..0c70f60 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1200,7 +1200,7 @@ class DualBoundary(object):
             self.ocb.rec_ind = rec_ind
             self.eab.rec_ind = rec_ind
         elif rec_ind >= self.records:
-            del_ind = self.records - rec_ind
+            del_ind = rec_ind - self.records
             self.ocb.rec_ind = self.ocb.records + del_ind
             self.eab.rec_ind = self.eab.records + del_ind
         else:
-- 
2.43.0


From ff7a7d7cf9f04abb95b13d5a51a7ebf197090309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 07/76] fix: DualBoundary with an unloaded boundary has a
 record index

---
 ocbpy/_boundary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 0c70f60..53c3a3e 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1249,6 +1249,7 @@ class DualBoundary(object):
             self.dtime = None
             self.ocb_ind = None
             self.eab_ind = None
+            self._rec_ind = 0
             return
 
         self.dtime = list()
-- 
2.43.0


From e34568aaed7da6158c0e5e6a7485a1142241197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 08/76] fix: use the matching heights when reverting
 dual-boundary coordinates

---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 53c3a3e..3845fb9 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1681,7 +1681,8 @@ class DualBoundary(object):
 
                 # Convert from magnetic coordinates to geo coordinates
                 lat[imag], lon, _ = aacgmv2.convert_latlon_arr(
-                    lat[imag], lon, height, self.dtime[self.rec_ind], method)
+                    lat[imag], lon, height[imag], self.dtime[self.rec_ind],
+                    method)
 
                 # Convert from longitude to solar local time
                 lt[imag] = ocb_time.glon2slt(lon, self.dtime[self.rec_ind])
-- 
2.43.0


From 10370c05227862a343ca913510ae622e37fc4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 09/76] fix: restore the output streams after fetching DMSP SSJ
 files

---
 ocbpy/boundaries/dmsp_ssj_files.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 1f58bc4..033a40c 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -24,11 +24,11 @@ References
 
 """
 
+from contextlib import redirect_stderr, redirect_stdout
 import datetime as dt
 from io import StringIO
 import numpy as np
 import os
-import sys
 import zipfile
 
 import aacgmv2
@@ -110,15 +110,12 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
 
     # Download the zenodo archive, capturing the output
     zenodo_io = StringIO()
-    sys.stdout = zenodo_io
-    sys.stderr = zenodo_io
-
     zenodo_checksum = os.path.join(out_dir, 'md5sums.txt')
-    zenodo_get.zenodo_get([doi, '-o', out_dir])
+
+    with redirect_stdout(zenodo_io), redirect_stderr(zenodo_io):
+        zenodo_get.zenodo_get([doi, '-o', out_dir])
 
     # Parse the output and retrieve files from the zip archive
-    sys.stdout = sys.__stdout__
-    sys.stderr = sys.__stderr__
     zen_msg = zenodo_io.getvalue()
     zen_split = zen_msg.split()
 
-- 
2.43.0


From 0e9ee787a3e54b891b84c056c604dccc7423aca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 10/76] fix: DMSP SSJ boundary file names in directories that
 contain '-f'

---
 ocbpy/boundaries/dmsp_ssj_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 033a40c..4cf3381 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -303,7 +303,7 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
     out_head = "#sc date time r x y fom x_1 y_1 x_2 y_2\n"
 
     # Specify the output file information
-    outfile_prefix = os.path.commonprefix(list(csv_files)).split('-f')[0]
+    outfile_prefix = os.path.commonprefix(list(csv_files)).rsplit('-f', 1)[0]
     filename_sec = os.path.split(
         csv_files[0])[-1].split('dmsp-f')[-1].split('_')
     sdate = filename_sec[3]
-- 
2.43.0


From 9ca01335d53b892edbf57b9292adc3d2b6992975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 11/76] fix: get_default_file for undated and multiple custom
 instrument files

---
 ocbpy/boundaries/files.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index cbb3ce6..e99a102 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -168,7 +168,7 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
         # Select by hemisphere
         if bdict['hemisphere'] == hemisphere:
             # Select by instrument
-            if bdict['instrument'] in inst:
+            if bdict['instrument'] in inst and 'etime' in bdict.keys():
                 # Select by time
                 if(stime is None or etime is None
                    or (stime <= bdict['etime'] and etime >= bdict['stime'])):
@@ -194,8 +194,9 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
     else:
         # Rate files by instrument
         default_inst = ['image', 'amp', 'si13', 'si12', 'wic', 'dmsp-ssj']
-        ordered_files = {default_inst.index(boundary_files[bb]['instrument']):
-                         bb for bb in good_files}
+        ordered_files = {default_inst.index(boundary_files[bb]['instrument'])
+                         if boundary_files[bb]['instrument'] in default_inst
+                         else len(default_inst): bb for bb in good_files}
         bfile = ordered_files[min(ordered_files.keys())]
         default_file = os.path.join(boundary_dir, bfile)
         if boundary_files[bfile]['instrument'] in short_to_long.keys():
-- 
2.43.0


From c035a648c3ce63ba74d5eb94eda8673c12b1e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 12/76] fix: add_ocb_to_data no longer alters the input
 variable names

---
 ocbpy/instruments/pysat_instruments.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 1c139f8..70e6282 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -129,14 +129,12 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
 
     """
     # Test the input
-    if evar_names is None:
-        evar_names = []
+    evar_names = [] if evar_names is None else list(evar_names)
 
-    if curl_evar_names is None:
-        curl_evar_names = []
+    curl_evar_names = [] if curl_evar_names is None else list(curl_evar_names)
 
-    if vector_names is None:
-        vector_names = {}
+    vector_names = {} if vector_names is None else {
+        vkey: dict(vector_names[vkey]) for vkey in vector_names.keys()}
 
     if not isinstance(pysat_inst, pysat.Instrument):
         raise ValueError('unknown class, expected pysat.Instrument')
-- 
2.43.0


From 850e2d6d192f1cc633bd16337eb561aac4b4c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 13/76] fix: add_ocb_to_data recognises boundary types at the
 start of a name

---
 ocbpy/instruments/pysat_instruments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 70e6282..52833f5 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -193,11 +193,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             if ocbfile.lower() in ['eab', 'ocb', 'dual']:
                 ocbfile = "default"
 
-        if fileroot.find("ocb") > 0 and fileroot.find("eab") < 0:
+        if fileroot.find("ocb") >= 0 and fileroot.find("eab") < 0:
             # Initialize the OCBoundary object
             ocb = ocbpy.OCBoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-        elif fileroot.find("ocb") < 0 and fileroot.find("eab") > 0:
+        elif fileroot.find("ocb") < 0 and fileroot.find("eab") >= 0:
             # Initialize the EABoundary object
             ocb = ocbpy.EABoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-- 
2.43.0


From 672ab01e309e015b9dc1ca23172d92b9a348a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 14/76] fix: add_ocb_to_data with a scalar height

---
 ocbpy/instruments/pysat_instruments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 52833f5..2189ae8 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -390,6 +390,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     else:
         ocb_coords = [pysat_inst.index.name]
 
+    if len(height.shape) == 0:
+        # Use the same height for each location
+        height = np.full(shape=lat.shape, fill_value=height)
+
     # See if the data has more dimensions than the OCB coordinates
     if len(dat_coords) > len(ocb_coords):
         combo_shape = list(lat.shape)
-- 
2.43.0


From f1faf8c4df48756ab162599f68a7f00535d94fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 15/76] fix: stop processing when no data are near a boundary

match_data_ocb returns None when none of the data are close enough to a
boundary record, which raised a TypeError in the calling routines.
---
 ocbpy/instruments/pysat_instruments.py | 4 ++++
 ocbpy/instruments/supermag.py          | 4 ++++
 ocbpy/instruments/vort.py              | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 2189ae8..66a925a 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -440,6 +440,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                     min_merit=min_merit, max_merit=max_merit,
                                     **kwargs)
 
+        if idat is None:
+            # None of the data are close enough to a boundary
+            break
+
         if idat < ndat and ocb.rec_ind < ocb.records:
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 19beee6..d3ec7b8 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -154,6 +154,10 @@ def supermag2ascii_ocb(smagfile, outfile, hemisphere=0, ocb=None,
                                         max_tol=max_sdiff, min_merit=min_merit,
                                         max_merit=max_merit, **kwargs)
 
+            if imag is None:
+                # None of the data are close enough to a boundary
+                break
+
             if imag < nmag and ocb.rec_ind < ocb.records:
                 # Get all of the points for this time pairing
                 itime = np.where(mdata['DATETIME'] == mdata['DATETIME'][imag])
diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index 3ce7cf7..7f08a7e 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -178,6 +178,10 @@ def vort2ascii_ocb(vortfile, outfile, hemisphere=0, ocb=None,
                                          max_tol=max_sdiff, min_merit=min_merit,
                                          max_merit=max_merit, **kwargs)
 
+            if ivort is None:
+                # None of the data are close enough to a boundary
+                break
+
             if ivort < num_vort and ocb.rec_ind < ocb.records:
                 # Use the indexed OCB to convert the AACGM grid coordinate to
                 # one related to the OCB
-- 
2.43.0


From 3b9b7843f785ffada6a10a08dbd27eba59474b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 16/76] fix: add_ocb_to_data does not carry attributes between
 vectors

---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 66a925a..df979e5 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -490,10 +490,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                   "loc_coord": loc_coord,
                                   "vect_coord": vect_coord,
                                   "height": height[iout]}
-                vector_init = dict(vector_default)
                 vshape = list()
 
                 for eattr in vector_names.keys():
+                    vector_init = dict(vector_default)
                     oattr = "{:s}_{:s}".format(eattr, bname)
                     for ikey in vector_names[eattr].keys():
                         # Not all vector names are DataFrame names
-- 
2.43.0


From 464c8ff41d9d7cbe076b019cd7ab132e45231046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 17/76] fix: scale the rotated components of scalar vectors

---
 ocbpy/ocb_scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 1899d68..aaf9e54 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -804,13 +804,13 @@ class VectorData(object):
             if len(self.ocb_n.shape) == 0:
                 self.ocb_n = np.full(
                     shape=self.ocb_n.shape, fill_value=self.scale_func(
-                        self.vect_n, self.unscaled_r, self.scaled_r))
+                        self.ocb_n, self.unscaled_r, self.scaled_r))
                 self.ocb_e = np.full(
                     shape=self.ocb_e.shape, fill_value=self.scale_func(
-                        self.vect_e, self.unscaled_r, self.scaled_r))
+                        self.ocb_e, self.unscaled_r, self.scaled_r))
                 self.ocb_z = np.full(
                     shape=self.ocb_z.shape, fill_value=self.scale_func(
-                        self.vect_z, self.unscaled_r, self.scaled_r))
+                        self.ocb_z, self.unscaled_r, self.scaled_r))
             else:
                 self.ocb_n = self.scale_func(self.ocb_n, self.unscaled_r,
                                              self.scaled_r)
-- 
2.43.0


From 5971f90380c267d2423cf9002adcb49f97f2c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 18/76] fix: year_soy_to_datetime rounding to 60 seconds

---
 ocbpy/ocb_time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index db915b2..011c17c 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -67,6 +67,7 @@ def year_soy_to_datetime(yyyy, soy):
     """
 
     # Calcuate doy, hour, min, seconds of day
+    soy = np.round(soy)
     ss = soy / 86400.0
     ddd = np.floor(ss)
 
-- 
2.43.0


From 7ac7d33312deed1b8da429944bc734beb9764e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 19/76] fix: fix_range alters its input and may return the
 maximum value

---
 ocbpy/ocb_time.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index 011c17c..f9545f8 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -418,8 +418,9 @@ def fix_range(values, min_val, max_val, val_range=None):
 
     """
 
-    # Cast output as array-like
-    fixed_vals = np.asarray(values)
+    # Cast output as array-like, leaving the input values unchanged
+    fixed_vals = np.array(values, dtype=np.result_type(
+        np.asarray(values), min_val, max_val))
 
     # Test input to ensure the maximum is greater than the minimum
     if min_val >= max_val:
@@ -435,19 +436,19 @@ def fix_range(values, min_val, max_val, val_range=None):
 
     # Fix the values, allowing for deviations that are multiples of the
     # value range.  Also propagate NaNs
-    ibad = (np.greater_equal(fixed_vals, max_val, where=~np.isnan(fixed_vals))
+    ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
             & ~np.isnan(fixed_vals))
     while np.any(ibad):
-        fixed_vals[ibad] -= val_range
-        ibad = (np.greater_equal(fixed_vals, max_val,
-                                 where=~np.isnan(fixed_vals))
+        fixed_vals[ibad] += val_range
+        ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
                 & ~np.isnan(fixed_vals))
 
-    ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
+    ibad = (np.greater_equal(fixed_vals, max_val, where=~np.isnan(fixed_vals))
             & ~np.isnan(fixed_vals))
     while np.any(ibad):
-        fixed_vals[ibad] += val_range
-        ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
+        fixed_vals[ibad] -= val_range
+        ibad = (np.greater_equal(fixed_vals, max_val,
+                                 where=~np.isnan(fixed_vals))
                 & ~np.isnan(fixed_vals))
 
     return fixed_vals
-- 
2.43.0


From c2704b98d5895b37cf64b9f7d5463c82f457752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 20/76] fix: vector functions combine scalar and array inputs

---
 ocbpy/vectors.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index d176eb7..e13309c 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -74,6 +74,10 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
     `pole_angle` using spherical trigonometry.
 
     """
+    # Ensure the inputs have the same shape
+    data_lt, data_lat, pole_lt, pole_lat = np.broadcast_arrays(
+        data_lt, data_lat, pole_lt, pole_lat)
+
     # Convert the local time values to radians, after calculating the
     # difference between the destination pole and the data. Restrict data
     # from -pi to pi
@@ -172,6 +176,10 @@ def define_pole_quadrants(data_lt, pole_lt, pole_angle):
     # Determine where the destination pole is relative to the data vector
     del_lt = np.asarray(pole_lt) - np.asarray(data_lt)
 
+    # Ensure there is a local time difference for every angle
+    del_lt = np.array(np.broadcast_to(del_lt, np.broadcast_shapes(
+        del_lt.shape, np.asarray(pole_angle).shape)))
+
     # Initalize the output
     pole_quad = np.zeros(shape=np.asarray(del_lt).shape)
 
@@ -573,6 +581,14 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     # Initialize the output, ensuring it is the same shape
     out_shape = (vect_lt + vect_lat + vect_n + vect_e + vect_z + vect_quad
                  + pole_lt + pole_lat + pole_angle + pole_quad).shape
+
+    # Expand the input to the output shape, so that every value is assigned
+    (vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad, pole_lt, pole_lat,
+     pole_angle, pole_quad) = [
+         np.array(np.broadcast_to(val, out_shape)) for val in [
+             vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad, pole_lt,
+             pole_lat, pole_angle, pole_quad]]
+
     dest_n = np.full(shape=out_shape, fill_value=np.nan)
     dest_e = np.full(shape=out_shape, fill_value=np.nan)
     dest_z = np.full(shape=out_shape, fill_value=np.nan)
-- 
2.43.0


From 0906fd290c8a3447023d49608d956e38321f796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 21/76] fix: keep the vertical component of purely vertical
 vectors

---
 ocbpy/vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index e13309c..421bd46 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -603,11 +603,11 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
         if len(out_shape) == 0:
             dest_n = 0.0
             dest_e = 0.0
-            dest_z = 0.0
+            dest_z = float(vect_z)
         else:
             dest_n[zero_mask] = 0.0
             dest_e[zero_mask] = 0.0
-            dest_z[zero_mask] = 0.0
+            dest_z[zero_mask] = vect_z[zero_mask]
 
     # The measurement is aligned with the base and destination poles
     if np.any(ns_mask):
-- 
2.43.0


From 20e99c477a844751b26d7b786bada7cf83acb1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 22/76] fix: satellite_track excludes locations in the other
 hemisphere

---
 ocbpy/cycle_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 34eb1df..1616bc0 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -310,12 +310,12 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
         # Evaluate the closest lower boundary limit
         if len(lat[ione]) > 0:
             lat_bound = 90.0 - np.sqrt(x1**2 + y1**2) - past_bound
-            ipast = np.where(abs(lat[ione]) < lat_bound)
+            ipast = np.where(hemisphere * lat[ione] < lat_bound)
             good[ione[0][ipast]] = False
 
         if len(lat[itwo]) > 0:
             lat_bound = 90.0 - np.sqrt(x2**2 + y2**2) - past_bound
-            ipast = np.where(abs(lat[itwo]) < lat_bound)
+            ipast = np.where(hemisphere * lat[itwo] < lat_bound)
             good[itwo[0][ipast]] = False
 
     # Return the boolean mask
-- 
2.43.0


From 0668f0eb4122aa06bef2719b1da8137a58455fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 23/76] fix: fix_range with integer values and a float value
 range

---
 ocbpy/ocb_time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index f9545f8..d5a8afd 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -420,7 +420,8 @@ def fix_range(values, min_val, max_val, val_range=None):
 
     # Cast output as array-like, leaving the input values unchanged
     fixed_vals = np.array(values, dtype=np.result_type(
-        np.asarray(values), min_val, max_val))
+        np.asarray(values), min_val, max_val,
+        min_val if val_range is None else val_range))
 
     # Test input to ensure the maximum is greater than the minimum
     if min_val >= max_val:
-- 
2.43.0


From b2bb53bb4cb288d12d1bf46bf300fdda201174cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 24/76] fix: dual-boundary coordinates of points on the OCB

Round-off error placed points that lie on the OCB in no region, which set their
dual-boundary latitude to NaN.
---
 ocbpy/_boundary.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 3845fb9..37caa6f 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1456,8 +1456,12 @@ class DualBoundary(object):
                         & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)))[0]
         iout = np.where(abs(aacgm_lat) < abs(eab_aacgm_boundary))[0]
 
-        # Test to ensure that all points fall into a region
-        iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
+        # Test to ensure that all points fall into a region, allowing for the
+        # round-off error of points on the OCB
+        iocb = np.where((abs(ocb_lat) >= abs(self.ocb.boundary_lat))
+                        | ((abs(aacgm_lat) >= abs(ocb_aacgm_boundary))
+                           & np.isclose(ocb_lat, self.ocb.boundary_lat,
+                                        rtol=0.0, atol=1.0e-8)))[0]
         if len(iocb) + len(imid) + len(iout) < len(aacgm_lat):
             msg = "not all points fall into a boundary region"
             if np.isnan(ocb_aacgm_boundary).any() or np.isnan(
-- 
2.43.0


From 1a1765e461d8a2f27972e419a3b7f66e96f90fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 25/76] fix: revert dual-boundary coordinates without a
 selected pair

Reverting dual-boundary latitudes past the last pair raised an IndexError, and
before the first pair used the last one, instead of returning NaN.
---
 ocbpy/_boundary.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 37caa6f..a720597 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1589,6 +1589,14 @@ class DualBoundary(object):
                 else:
                     raise ValueError('mismatched input shape for height')
 
+        # Test the dual-boundary record index
+        if self.rec_ind < 0 or self.rec_ind >= self.records:
+            if out_shape == ():
+                return np.nan, np.nan
+            else:
+                return (np.full(shape=out_shape, fill_value=np.nan),
+                        np.full(shape=out_shape, fill_value=np.nan))
+
         # Get the OCB reversion
         lat, lt = self.ocb.revert_coord(ocb_lat, ocb_mlt, r_corr=r_corr,
                                         coords=coords, height=height,
-- 
2.43.0


From bd5b440ee596c7ce864366d262433525e6a0cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 26/76] fix: scalar radii of a scalar location without a
 selected pair

---
 ocbpy/_boundary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index a720597..0d4f1c0 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1793,6 +1793,10 @@ class DualBoundary(object):
 
         if self.rec_ind < 0 or self.rec_ind >= self.records:
             unscaled_r = np.full(shape=out_shape, fill_value=np.nan)
+
+            if isfloat:
+                return scaled_r[0], unscaled_r[0]
+
             return scaled_r, unscaled_r
 
         if out_shape == r_corr.shape:
-- 
2.43.0


From 93446a2373be08dd5b21aa6bdbee0f8621160f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 27/76] fix: satellite_track with scalar or multi-dimensional
 locations

---
 ocbpy/cycle_boundary.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 1616bc0..b797e50 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -298,25 +298,12 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
 
     good = (y_in >= y_low) & (y_in <= y_high)
 
-    # Ensure the latitude is not too low
-    if np.any(good):
-        r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
-        r2 = np.sqrt((x2 - x_in)**2 + (y2 - y_in)**2)
-
-        # Find which boundary is closest to the good points
-        ione = np.where(good & (r1 <= r2))
-        itwo = np.where(good & (r2 < r1))
-
-        # Evaluate the closest lower boundary limit
-        if len(lat[ione]) > 0:
-            lat_bound = 90.0 - np.sqrt(x1**2 + y1**2) - past_bound
-            ipast = np.where(hemisphere * lat[ione] < lat_bound)
-            good[ione[0][ipast]] = False
-
-        if len(lat[itwo]) > 0:
-            lat_bound = 90.0 - np.sqrt(x2**2 + y2**2) - past_bound
-            ipast = np.where(hemisphere * lat[itwo] < lat_bound)
-            good[itwo[0][ipast]] = False
+    # Ensure the latitude is not too low, using the closest boundary location
+    r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
+    r2 = np.sqrt((x2 - x_in)**2 + (y2 - y_in)**2)
+    lat_bound = 90.0 - past_bound - np.where(
+        r1 <= r2, np.sqrt(x1**2 + y1**2), np.sqrt(x2**2 + y2**2))
+    good = good & (hemisphere * lat >= lat_bound)
 
     # Return the boolean mask
     return good
-- 
2.43.0


From 7d8a625d235c7d5c1ac8c12c25f70897a52ee26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 28/76] fix: satellite_track for passes along the noon-midnight
 axis

---
 ocbpy/cycle_boundary.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index b797e50..f7ce6ae 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -282,21 +282,25 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
     lat = np.asarray(lat)
     mlt = np.asarray(mlt)
 
-    # Get the equation of the line defining the upper and lower bounds
-    slope = (y1 - y2) / (x1 - x2)
-    high_int = y1 + del_y - slope * (x1 + del_x)
-    low_int = y1 - del_y - slope * (x1 - del_x)
-
     # Determine the Cartesian coordinates of the input point
     rad_in = ocb_time.hr2rad(mlt - 6.0)
     x_in = (90.0 - hemisphere * lat) * np.cos(rad_in)
     y_in = (90.0 - hemisphere * lat) * np.sin(rad_in)
 
-    # Calculate the upper and lower limits for each of the x-inputs
-    y_low = slope * x_in + low_int
-    y_high = slope * x_in + high_int
+    if x1 == x2:
+        # The track runs along the y-axis
+        good = abs(x_in - x1) <= del_x
+    else:
+        # Get the equation of the line defining the upper and lower bounds
+        slope = (y1 - y2) / (x1 - x2)
+        high_int = y1 + del_y - slope * (x1 + del_x)
+        low_int = y1 - del_y - slope * (x1 - del_x)
+
+        # Calculate the upper and lower limits for each of the x-inputs
+        y_low = slope * x_in + low_int
+        y_high = slope * x_in + high_int
 
-    good = (y_in >= y_low) & (y_in <= y_high)
+        good = (y_in >= y_low) & (y_in <= y_high)
 
     # Ensure the latitude is not too low, using the closest boundary location
     r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
-- 
2.43.0


From 5306147f5a49439b49583b3aa3031557af89c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 29/76] fix: convert combined date and time strings with the
 default format

---
 ocbpy/ocb_time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index d5a8afd..d96bdcd 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -174,7 +174,9 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
                 # Ensure that the datetime format does not contain time
                 for time_fmt in [" %H:%M:%S", " SOD"]:
                     time_loc = datetime_fmt.upper().find(time_fmt)
-                    if time_loc > 0:
+                    if time_loc > 0 and (time_fmt == " SOD" or len(
+                            str_time.split()) <= len(
+                                datetime_fmt[:time_loc].split())):
                         datetime_fmt = datetime_fmt[:time_loc]
             else:
                 str_time = "{:s} {:s}".format(date, tod)
-- 
2.43.0


From e3f905519123e04ad4b46c7769e79ed98fdfd005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 30/76] fix: raise ValueError for incomplete or malformed time
 input

---
 ocbpy/ocb_time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index d96bdcd..ddcfec2 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -151,6 +151,7 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
 
     """
 
+    str_time = None
     try:
         if year is not None and soy is not None:
             dtime = year_soy_to_datetime(year, soy)
@@ -179,7 +180,7 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
                                 datetime_fmt[:time_loc].split())):
                         datetime_fmt = datetime_fmt[:time_loc]
             else:
-                str_time = "{:s} {:s}".format(date, tod)
+                str_time = "{:} {:s}".format(date, tod)
 
             dtime = dt.datetime.strptime(str_time, datetime_fmt)
 
@@ -194,7 +195,7 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
                     dtime += dt.timedelta(microseconds=int(microsec))
 
     except ValueError as verr:
-        if(len(verr.args) > 0
+        if(str_time is not None and len(verr.args) > 0
            and verr.args[0].startswith('unconverted data remains: ')):
             vsplit = verr.args[0].split(" ")
             dtime = dt.datetime.strptime(str_time[:-(len(vsplit[-1]))],
-- 
2.43.0


From 7ebd47080e4c3a852904bd731d17b859fec8c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 31/76] fix: keep the seconds of day of dates with trailing
 characters

---
 ocbpy/ocb_time.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index ddcfec2..c2ebd69 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -184,16 +184,6 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
 
             dtime = dt.datetime.strptime(str_time, datetime_fmt)
 
-            if sod is not None:
-                # Add the seconds of day to dtime
-                microsec, sec = np.modf(sod)
-                dtime += dt.timedelta(seconds=int(sec))
-
-                if microsec > 0.0:
-                    # Add the microseconds to dtime
-                    microsec = np.ceil(microsec * 1.0e6)
-                    dtime += dt.timedelta(microseconds=int(microsec))
-
     except ValueError as verr:
         if(str_time is not None and len(verr.args) > 0
            and verr.args[0].startswith('unconverted data remains: ')):
@@ -203,6 +193,16 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
         else:
             raise ValueError(verr)
 
+    if sod is not None and str_time is not None:
+        # Add the seconds of day to dtime
+        microsec, sec = np.modf(sod)
+        dtime += dt.timedelta(seconds=int(sec))
+
+        if microsec > 0.0:
+            # Add the microseconds to dtime
+            microsec = np.ceil(microsec * 1.0e6)
+            dtime += dt.timedelta(microseconds=int(microsec))
+
     return dtime
 
 
-- 
2.43.0


From 73f00dfa1232342df4a682a0e54fae16a0362138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 32/76] fix: raise ValueError for out-of-range days and seconds

---
 ocbpy/ocb_time.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index c2ebd69..9e702ee 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -188,6 +188,11 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
         if(str_time is not None and len(verr.args) > 0
            and verr.args[0].startswith('unconverted data remains: ')):
             vsplit = verr.args[0].split(" ")
+
+            if vsplit[-1][:1].isdigit():
+                # The trailing digits belong to an out-of-range value
+                raise ValueError(verr)
+
             dtime = dt.datetime.strptime(str_time[:-(len(vsplit[-1]))],
                                          datetime_fmt)
         else:
-- 
2.43.0


From 6bdd1077e7e1f69da72f7b36ac1512a6e38de36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 33/76] fix: pole angles of locations nearly aligned with the
 poles

---
 ocbpy/vectors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 421bd46..e239544 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -134,8 +134,9 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
 
     # Use the half-angle formula to get the pole angle
     sum_sides = 0.5 * (del_vect + del_dest + del_pole)
-    half_angle = np.sqrt(np.sin(sum_sides) * np.sin(sum_sides - del_pole)
-                         / (np.sin(del_vect) * np.sin(del_dest)))
+    half_angle = np.sqrt(np.clip(
+        np.sin(sum_sides) * np.sin(sum_sides - del_pole)
+        / (np.sin(del_vect) * np.sin(del_dest)), 0.0, 1.0))
 
     if pole_angle.shape == ():
         pole_angle = np.degrees(2.0 * np.arccos(half_angle))
-- 
2.43.0


From e63d1d57fb95b8b5d0bb806dafcdea0d1acaa75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 34/76] fix: adjust_vector leaves undefined vectors undefined

---
 ocbpy/vectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index e239544..9a44e3b 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -597,7 +597,8 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     # Determine the special case assignments
     zero_mask = (vect_n == 0.0) & (vect_e == 0.0)
     ns_mask = (pole_angle == 0.0) | (pole_angle == 180.0)
-    norm_mask = ~(zero_mask + ns_mask)
+    norm_mask = ~(zero_mask + ns_mask) & ~np.isnan(
+        vect_n + vect_e + vect_lt + pole_lt + pole_angle)
 
     # There's nothing to adjust if there is no magnitude
     if np.any(zero_mask):
-- 
2.43.0


From 17dd8e32ac26eeadd5e1ca50fd0845907f407d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 35/76] fix: pole angle of a scalar location with undefined
 latitude

---
 ocbpy/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 9a44e3b..08d8238 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -96,7 +96,7 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
         if del_long in [-np.pi, 0.0, np.pi]:
             if abs(data_lat) > abs(pole_lat):
                 pole_angle = 180.0
-            else:
+            elif abs(data_lat) <= abs(pole_lat):
                 pole_angle = 0.0
             return pole_angle
     else:
-- 
2.43.0


From ca6e03767b54531adf4818f59c4c8f3ccc612426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 36/76] fix: convert geographic vectors at the time of their
 own boundary record

VectorData.set_ocb used the boundary object's current record for the magnetic
conversion when there was one boundary index, whatever that index was.
---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index aaf9e54..a0f947d 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -643,7 +643,7 @@ class VectorData(object):
 
         """
         # Update the data values to be in magnetic coordinates
-        dtime = ocb.dtime[ocb.rec_ind] if self.ocb_ind.shape == () else [
+        dtime = ocb.dtime[self.ocb_ind] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
         self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
 
-- 
2.43.0


From ab91a2893c9981bcd884c99b7dc47d957ebdd150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 37/76] fix: convert arrays of geographic vectors for a single
 boundary time

The geographic location of the AACGM pole was requested for an array of heights
from a function that only accepts one height, raising an error.
---
 ocbpy/ocb_scaling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index a0f947d..9f9108f 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1076,11 +1076,15 @@ class VectorData(object):
                     mag_pole_slt.append(ocb_time.glon2slt(out[1], val))
                     mag_pole_glat.append(out[0])
             else:
-                mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon(
+                mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon_arr(
                     hemisphere * 90.0, 0.0, self.height, dtime,
                     method_code='|'.join(methods))
                 mag_pole_slt = ocb_time.glon2slt(mag_pole_lon, dtime)
 
+                # The conversion output is always an array
+                mag_pole_glat = np.reshape(mag_pole_glat, self.height.shape)
+                mag_pole_slt = np.reshape(mag_pole_slt, self.height.shape)
+
             mag_pole_glat = np.asarray(mag_pole_glat)
             mag_pole_slt = np.asarray(mag_pole_slt)
 
-- 
2.43.0


From 3ad9ad8c607ddbcc919b02134f7c2584193cf0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 38/76] fix: keep the shape of a single location when
 converting coordinates

The array AACGM routines return one-element arrays for single locations, which
turned scalar vector data into arrays.
---
 ocbpy/ocb_scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 9f9108f..8515db1 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -984,9 +984,9 @@ class VectorData(object):
                     # Convert to SLT
                     new_lt = ocb_time.glon2slt(new_lon, dtime)
 
-            # Update the location attributes
-            self.lat = np.asarray(new_lat)
-            self.lt = np.asarray(new_lt)
+            # Update the location attributes, a single location stays single
+            self.lat = np.reshape(new_lat, self.lat.shape)
+            self.lt = np.reshape(new_lt, self.lt.shape)
             self.loc_coord = coord
 
         return
-- 
2.43.0


From 8b66f6119ac13b0232702e2bda768ad3cd6366f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 39/76] fix: assign boundaries to vectors at geographic
 locations

Magnetic vectors at a geographic location, and single geographic vectors with
several boundary records, raised errors as their location was not converted or
was not taken record by record.
---
 ocbpy/ocb_scaling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 8515db1..5b1be72 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -646,6 +646,7 @@ class VectorData(object):
         dtime = ocb.dtime[self.ocb_ind] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
         self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
+        self.update_loc_coords(dtime)
 
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
@@ -668,7 +669,7 @@ class VectorData(object):
                 for i, ocb.rec_ind in enumerate(self.ocb_ind):
                     # Handle time different, depending on the OCB and
                     # data shapes. Calcualte the coordinates and save the output
-                    if self.ocb_ind.shape == self.dat_ind.shape:
+                    if self.ocb_ind.shape == self.lat.shape:
                         out_coord = ocb.normal_coord(self.lat[i], self.lt[i],
                                                      coords=self.loc_coord,
                                                      height=self.height[i])
-- 
2.43.0


From 0092d6810a80edccbf233663a9fe130f4ab6b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 40/76] fix: convert vectors with the requested AACGM tracing
 method

VectorData.set_ocb accepted a tracing method and did not use it to convert
geographic vectors and their locations.
---
 ocbpy/ocb_scaling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 5b1be72..983a526 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -645,8 +645,9 @@ class VectorData(object):
         # Update the data values to be in magnetic coordinates
         dtime = ocb.dtime[self.ocb_ind] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
-        self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
-        self.update_loc_coords(dtime)
+        self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
+                                       trace_method=trace_method)
+        self.update_loc_coords(dtime, trace_method=trace_method)
 
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
-- 
2.43.0


From 7da7b63f3f2afa08ccaa5faf42eb63561b0b5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 41/76] fix: leave vectors without a pole angle undefined even
 when they are null

A null horizontal vector at a location without boundary coordinates came out
as a valid null boundary vector instead of NaN.
---
 ocbpy/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 08d8238..ca54728 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -595,7 +595,7 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     dest_z = np.full(shape=out_shape, fill_value=np.nan)
 
     # Determine the special case assignments
-    zero_mask = (vect_n == 0.0) & (vect_e == 0.0)
+    zero_mask = (vect_n == 0.0) & (vect_e == 0.0) & ~np.isnan(pole_angle)
     ns_mask = (pole_angle == 0.0) | (pole_angle == 180.0)
     norm_mask = ~(zero_mask + ns_mask) & ~np.isnan(
         vect_n + vect_e + vect_lt + pole_lt + pole_angle)
-- 
2.43.0


From 4a475d947dea05cbac88c7353d3464828d15990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 42/76] fix: magnitude of vectors given as single components
 for several locations

The magnitude kept the shape of the input components, so printing the object
raised TypeError when every component was a single value.
---
 ocbpy/ocb_scaling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 983a526..4d5a9c1 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -126,7 +126,6 @@ class VectorData(object):
         self.height = height
         self.loc_coord = loc_coord.lower()
         self.vect_coord = vect_coord.lower()
-        self.vect_mag = vect_mag
 
         # Test the coordinate systems for valid options
         self._test_coords()
@@ -134,6 +133,9 @@ class VectorData(object):
         # Test the initalization shape and update the vector shapes if needed
         self._test_update_vector_shape()
 
+        # Assign the vector magnitude, once all components have their shape
+        self.vect_mag = vect_mag
+
         # Assign the OCB vector default values
         self.ocb_lat = ocb_lat
         self.ocb_mlt = ocb_mlt
-- 
2.43.0


From a8683db007943bbd510abe0385d384de3fce9b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 43/76] fix: geographic vectors at locations without geographic
 coordinates

UnboundLocalError was raised when AACGM could not trace any of the locations.
---
 ocbpy/ocb_scaling.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 4d5a9c1..8be49b1 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1098,11 +1098,9 @@ class VectorData(object):
                 geo_lt, geo_lat, mag_pole_slt, mag_pole_glat)
 
             # Set the pole and vector quadrants
-            if np.any(~np.isnan(pole_angle)):
-                pole_quad = vectors.define_pole_quadrants(geo_lt, mag_pole_slt,
-                                                          pole_angle)
-                vect_quad = vectors.define_vect_quadrants(self.vect_n,
-                                                          self.vect_e)
+            pole_quad = vectors.define_pole_quadrants(geo_lt, mag_pole_slt,
+                                                      pole_angle)
+            vect_quad = vectors.define_vect_quadrants(self.vect_n, self.vect_e)
 
             # Adjust the geographic vector to AACGM coordinates
             mag_n, mag_e, mag_z = vectors.adjust_vector(
-- 
2.43.0


From 4ee0b826daf9bc001e2db8f0d6cf40965089f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 44/76] fix: keep the height of a single location with several
 boundary records

The height was expanded and not restored with the location, so geographic
vectors could not be assigned to several dual boundary records.
---
 ocbpy/ocb_scaling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 8be49b1..5888040 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1021,6 +1021,7 @@ class VectorData(object):
                 # Assign the magnetic location
                 mag_lt = np.asarray(self.lt)
                 mag_lat = np.asarray(self.lat)
+                mag_height = np.asarray(self.height)
 
                 # Calculate the geographic location
                 self.update_loc_coords(dtimes, coord=self.vect_coord,
@@ -1031,6 +1032,7 @@ class VectorData(object):
                 # Re-assign the location values
                 self.lt = np.asarray(mag_lt)
                 self.lat = np.asarray(mag_lat)
+                self.height = np.asarray(mag_height)
                 self.loc_coord = 'magnetic'
             else:
                 # Assign the geographic location
@@ -1071,10 +1073,11 @@ class VectorData(object):
                 mag_pole_glat = list()
                 mag_pole_slt = list()
                 method = '|'.join(methods)
+                height = np.broadcast_to(self.height, (len(dtimes),))
                 for i, val in enumerate(dtimes):
                     # Get the geographic pole lat and lon
                     out = aacgmv2.convert_latlon(
-                        hemisphere * 90.0, 0.0, self.height[i], val, method)
+                        hemisphere * 90.0, 0.0, height[i], val, method)
 
                     # Save the SLT and latitude
                     mag_pole_slt.append(ocb_time.glon2slt(out[1], val))
-- 
2.43.0


From 5cbe93a9143232b9f92083adae18617cc1d4e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 45/76] fix: load ASCII data files with a single data row

A single row was returned as a one-dimensional array, whose values were then
taken for rows, raising an error.
---
 ocbpy/instruments/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 5afe141..79c9e40 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -193,7 +193,8 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
         idt = len(dt_keys)
 
     # Open the datafile and read the data rows
-    temp = np.genfromtxt(filename, skip_header=hlines, dtype=str, **gft_kwargs)
+    temp = np.genfromtxt(filename, skip_header=hlines, dtype=str,
+                         **{"ndmin": 2, **gft_kwargs})
 
     if len(temp) > 0:
         # When dtype is specified, output comes as a void np.array
-- 
2.43.0


From a8cd04f74a278cbb36fd9815d17f6fa9050f2ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 46/76] fix: load ASCII data files without data rows

An IndexError was raised for files that only have a header.
---
 ocbpy/instruments/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 79c9e40..dd96975 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -251,7 +251,8 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     # Cast all lists as numpy arrays, if possible
     for k in out.keys():
         try:
-            out[k] = np.array(out[k], dtype=type(out[k][0]))
+            out[k] = np.array(out[k], dtype=type(out[k][0]) if len(out[k]) > 0
+                              else None)
         except TypeError:
             # Leave as a list if array casting doesn't work.  This was an
             # issue before, but may have been an old numpy bug that is fixed.
-- 
2.43.0


From c17ae47f1ac31111f730a8f309468243b651c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 47/76] fix: cast the columns with the year and seconds of year
 as integers

The positions in the format string were used as column numbers, so the first
columns of the file became integers when the times are in other columns.
---
 ocbpy/instruments/general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index dd96975..b16efd1 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -134,11 +134,11 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
         if datetime_fmt.upper().find("YEAR") >= 0:
             ipart = datetime_fmt.upper().find("YEAR")
             case_part = datetime_fmt[ipart:ipart + 4]
-            int_cols.append(dfmt_parts.index(case_part))
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
         if datetime_fmt.upper().find("SOY") >= 0:
             ipart = datetime_fmt.upper().find("SOY")
             case_part = datetime_fmt[ipart:ipart + 3]
-            int_cols.append(dfmt_parts.index(case_part))
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
 
     # Open the data file and read the header rows
     with open(filename, "r") as fin:
-- 
2.43.0


From 97fbe4d13dc9c6d4f2845768fc9f6f6998e092da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 48/76] fix: allow integer columns in the date and time of
 ASCII data

A column used both as an integer and as part of the time raised TypeError.
---
 ocbpy/instruments/general.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index b16efd1..4d7e390 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -216,6 +216,8 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
                         line_val = line[dcol].astype(ldtype[dcol])
 
                         if dfmt_parts[icol].find("%") == 0:
+                            # Strings are needed, even for integer columns
+                            line_val = str(line[dcol])
                             if dfmt_parts[icol][1] in time_formats:
                                 ckey = "tod"
                             else:
-- 
2.43.0


From 4b7886a43c57fc32056db0c3a036ea69427d16ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 49/76] fix: leave the lists given to load_ascii_data unchanged

The file's header lines and time columns were added to the caller's lists, so a
second call with the same lists used the wrong column names.
---
 ocbpy/instruments/general.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 4d7e390..4945c9c 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -102,18 +102,16 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     Data is assumed to be float unless otherwise stated.
 
     """
-    # Initialize the empty lists
+    # Initialize the empty lists, copying those that will be extended
     if datetime_cols is None:
         datetime_cols = list()
 
-    if int_cols is None:
-        int_cols = list()
+    int_cols = list() if int_cols is None else list(int_cols)
 
     if str_cols is None:
         str_cols = list()
 
-    if header is None:
-        header = list()
+    header = list() if header is None else list(header)
 
     # Test to ensure the file is small enough to read in.  Python can only
     # allocate 2GB of data.  If you load something larger, python will crash
-- 
2.43.0


From e80bc346f7b430116a3a44fe96a545281eccbb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 50/76] fix: column names in a header line that starts with the
 comment character

No data was loaded when the comment character was given explicitly.
---
 ocbpy/instruments/general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 4945c9c..f93fbe8 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -154,6 +154,10 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     keyheader = in_header if in_header is not None else header[-1]
 
     if 'comments' in gft_kwargs.keys() and gft_kwargs['comments'] is not None:
+        # The header itself may be a comment
+        keyheader = keyheader.strip()
+        if keyheader.startswith(gft_kwargs['comments']):
+            keyheader = keyheader[len(gft_kwargs['comments']):]
         keyheader = keyheader.split(gft_kwargs['comments'])[0]
 
     keyheader = keyheader.replace("#", "").strip()
-- 
2.43.0


From 04adeb08a1d1f640819d5d6609f7eaa4d91ce2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 51/76] fix: load ASCII data with every datetime column name in
 use

An IndexError was raised instead of omitting the datetime column.
---
 ocbpy/instruments/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index f93fbe8..57fc44c 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -178,7 +178,7 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     dt_keys = ['datetime', 'DATETIME', 'DT', 'dt']
     if len(datetime_cols) > 0 and datetime_fmt is not None:
         idt = 0
-        while dt_keys[idt] in out.keys():
+        while idt < len(dt_keys) and dt_keys[idt] in out.keys():
             idt += 1
 
         if idt < len(dt_keys):
-- 
2.43.0


From c6af53d6be998517ec6f90b1c0892ac62fbc4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 52/76] fix: match data to all boundaries of an object that was
 used before

---
 ocbpy/instruments/pysat_instruments.py | 3 +++
 ocbpy/instruments/supermag.py          | 3 +++
 ocbpy/instruments/vort.py              | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index df979e5..c05241a 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -434,6 +434,9 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     else:
         ref_r = 90.0 - abs(ocb.ocb.boundary_lat)
 
+    # Consider all boundaries, also if the object was cycled through before
+    ocb.rec_ind = -1
+
     while idat < ndat and ocb.rec_ind < ocb.records:
         idat = ocbpy.match_data_ocb(ocb, pysat_inst.index[uind],
                                     idat=idat, max_tol=max_sdiff,
diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index d3ec7b8..da42c3d 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -148,6 +148,9 @@ def supermag2ascii_ocb(smagfile, outfile, hemisphere=0, ocb=None,
         imag = 0
         nmag = mdata['DATETIME'].shape[0]
 
+        # Consider all boundaries, also if the object was cycled through before
+        ocb.rec_ind = -1
+
         # Cycle through the data, matching SuperMAG and OCB records
         while imag < nmag and ocb.rec_ind < ocb.records:
             imag = ocbpy.match_data_ocb(ocb, mdata['DATETIME'], idat=imag,
diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index 7f08a7e..9a9af1b 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -172,6 +172,9 @@ def vort2ascii_ocb(vortfile, outfile, hemisphere=0, ocb=None,
         ivort = 0
         num_vort = vdata['DATETIME'].shape[0]
 
+        # Consider all boundaries, also if the object was cycled through before
+        ocb.rec_ind = -1
+
         # Cycle through the data, matching vorticity and OCB records
         while ivort < num_vort and ocb.rec_ind < ocb.records:
             ivort = ocbpy.match_data_ocb(ocb, vdata['DATETIME'], idat=ivort,
-- 
2.43.0


From 368a140ab33dac2f28183eb59d029557b8d710b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 53/76] fix: replace the fill value of the SuperMAG magnetic
 latitude

---
 ocbpy/instruments/supermag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index da42c3d..d368c70 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -309,7 +309,7 @@ def load_supermag_ascii_data(filename):
         else:
             out[k] = np.array(out[k])
 
-            if k in ['BE', 'BN', 'DEC', 'SZA', 'MLT', 'BZ']:
+            if k in ['BE', 'BN', 'DEC', 'SZA', 'MLT', 'MLAT', 'BZ']:
                 out[k][out[k] == fill_val] = np.nan
 
     return header, out
-- 
2.43.0


From 4a10d33c1cc19dd02a2043963468ac46a4d9e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 54/76] fix: load SuperMAG files with times without stations

---
 ocbpy/instruments/supermag.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index d368c70..9577704 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -253,8 +253,11 @@ def load_supermag_ascii_data(filename):
                     hflag = False
             else:
                 # Fill the output dictionary
-                if n < 0:
-                    # This is a date line
+                if n < 0 or (n == snum and len(line.split()) != 2):
+                    # This is a date line, also after a time without stations
+                    if n >= 0:
+                        ind = {"SMU": fill_val, "SML": fill_val}
+
                     n = 0
                     lsplit = np.array(line.split(), dtype=int)
                     dtime = dt.datetime(lsplit[0], lsplit[1], lsplit[2],
-- 
2.43.0


From 97fd61747d9975846e061c0f27d5bffbd2613e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 55/76] fix: round the vorticity time of day instead of
 truncating it by round-off

---
 ocbpy/instruments/vort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index 9a9af1b..ae5b53d 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -300,7 +300,7 @@ def load_vorticity_ascii_data(vortfile, save_all=False):
                 # Calculate and save the datetime
                 stime = " ".join(vsplit)
                 dtime = (dt.datetime.strptime(stime, "%Y %m %d")
-                         + dt.timedelta(seconds=np.floor(hh * 3600.0)))
+                         + dt.timedelta(seconds=np.round(hh * 3600.0)))
                 vinc += 1
 
                 # Move to next line
-- 
2.43.0


From 0c51090905c31f77992c9ddab8e58bdddc8c10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 56/76] fix: determine the hemisphere of northern and
 equatorial data

---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 ocbpy/instruments/supermag.py          | 2 +-
 ocbpy/instruments/vort.py              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index c05241a..a22bb11 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -179,7 +179,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             # Ensure that all data is in the same hemisphere
             if hemisphere == 0:
                 hemisphere = np.sign(np.nanmin(lat))
-            elif hemisphere != np.sign(np.nanmin(lat)):
+            elif hemisphere == -np.sign(np.nanmin(lat)):
                 raise ValueError("".join(["cannot process observations from "
                                           "both hemispheres at the same time;"
                                           "set hemisphere=+/-1 to choose."]))
diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 9577704..d39912e 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -102,7 +102,7 @@ def supermag2ascii_ocb(smagfile, outfile, hemisphere=0, ocb=None,
             # Ensure that all data is in the same hemisphere
             if hemisphere == 0:
                 hemisphere = np.sign(np.nanmin(mdata['MLAT']))
-            elif hemisphere != np.sign(np.nanmin(mdata['MLAT'])):
+            elif hemisphere == -np.sign(np.nanmin(mdata['MLAT'])):
                 raise ValueError("".join(["cannot process observations from "
                                           "both hemispheres at the same time;"
                                           "set hemisphere=+/-1 to choose."]))
diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index ae5b53d..ee610fc 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -116,7 +116,7 @@ def vort2ascii_ocb(vortfile, outfile, hemisphere=0, ocb=None,
             # Ensure that all data is in the same hemisphere
             if hemisphere == 0:
                 hemisphere = np.sign(np.nanmin(vdata['CENTRE_MLAT']))
-            elif hemisphere != np.sign(np.nanmin(vdata['CENTRE_MLAT'])):
+            elif hemisphere == -np.sign(np.nanmin(vdata['CENTRE_MLAT'])):
                 raise ValueError("".join(["cannot process observations from ",
                                           "both hemispheres at the same time;",
                                           " set hemisphere=+/-1 to choose."]))
-- 
2.43.0


From ec542a2c4f2f49d600429eb325688dc77095fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 57/76] fix: keep the record index of a boundary apart from the
 vector data index

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 5888040..86148d4 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -659,7 +659,7 @@ class VectorData(object):
             # dependent, we can't call this function with multiple OCB/EABs
             if self.ocb_ind.shape == ():
                 # Initialise the boundary index
-                ocb.rec_ind = self.ocb_ind
+                ocb.rec_ind = int(self.ocb_ind)
 
                 # Calculate the coordinates and save the output
                 out_coord = ocb.normal_coord(self.lat, self.lt,
-- 
2.43.0


From b536b501de3076065111eedb5b1795d329e6a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 58/76] fix: match the dimensions of pysat xarray locations and
 data by name

The dimensions of the locations, the heights, the finite data mask, and the
output were each ordered differently, so that xarray data were assigned to the
wrong samples or not processed unless the dimensions had the order and the
coordinates of the test instruments.  Masks that are not rectangular also kept
masked samples as additional NaN values, and leading dimensions that are
missing were mistaken for trailing dimensions of the same size.
---
 ocbpy/instruments/pysat_instruments.py | 189 +++++++++++++------------
 1 file changed, 95 insertions(+), 94 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index a22bb11..0c3ac7b 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -296,13 +296,6 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                         vector_attrs[oattr].append(vector_names[eattr][vinit])
                     vdim += 1
 
-    # Determine how many of the pysat names are variables
-    pysat_var_names = len(pysat_names)
-    if not pysat_inst.pandas_format:
-        for pyname in pysat_names:
-            if pyname in pysat_inst.data.coords:
-                pysat_var_names -= 1
-
     # Append the remaining OCB output names
     for eattr in evar_names:
         ocb_names.append("{:s}_{:s}".format(eattr, bname))
@@ -316,18 +309,47 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     else:
         height = np.asarray(height)
 
+    # Set the dimensions of the OCB output. Start with the time, followed by the
+    # dimensions of the location, and then any other dimensions of the data
+    ocb_coords = [pysat_inst.index.name]
+
+    if not pysat_inst.pandas_format:
+        loc_names = [mlt_name, mlat_name]
+        if height_name in pysat_inst.variables:
+            loc_names.append(height_name)
+
+        for pyname in loc_names:
+            for pydim in pysat_inst.data[pyname].dims:
+                if pydim not in ocb_coords:
+                    ocb_coords.append(pydim)
+
+        loc_shape = [pysat_inst.data.sizes[pydim] for pydim in ocb_coords]
+
+        for pyname in pysat_names:
+            for pydim in pysat_inst.data[pyname].dims:
+                if pydim not in ocb_coords:
+                    ocb_coords.append(pydim)
+
     # Ensure all data is from one hemisphere and is finite
     if pysat_inst.pandas_format:
         finite_mask = ((np.sign(lat) == hemisphere)
                        & np.isfinite(pysat_inst[:, pysat_names].max(axis=1)))
-        dat_coords = [pysat_inst.index.name]
-        combo_shape = [pysat_inst.index.shape[0]]
     else:
-        nan_inst = pysat_inst.data.where(np.sign(pysat_inst.data[mlat_name])
-                                         >= hemisphere)
-        finite_mask = np.isfinite(nan_inst[pysat_names].to_array().max(
-            'variable'))
-        dat_coords = [coord for coord in pysat_inst[pysat_names].coords.keys()]
+        # Coordinates are only considered if there are no other variables
+        var_names = [pyname for pyname in pysat_names
+                     if pyname not in pysat_inst.data.coords]
+        if len(var_names) == 0:
+            var_names = pysat_names
+
+        finite_max = expand_data_dims(pysat_inst.data[var_names[0]], ocb_coords,
+                                      pysat_inst.data.sizes)
+        for pyname in var_names[1:]:
+            finite_max = np.fmax(finite_max, expand_data_dims(
+                pysat_inst.data[pyname], ocb_coords, pysat_inst.data.sizes))
+
+        finite_mask = np.isfinite(finite_max) & (np.sign(expand_data_dims(
+            pysat_inst.data[mlat_name], ocb_coords,
+            pysat_inst.data.sizes)) == hemisphere)
     dat_ind = np.where(finite_mask)
 
     # Test the OCB data
@@ -336,81 +358,33 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         return
 
     # Ensure the LT, Lat, and Height data are the same shape
-    if lat.shape != lt.shape or lat.shape[0] != pysat_inst.index.shape[
-            0] or (height.shape != lat.shape and len(height.shape) > 0):
-        if pysat_inst.pandas_format:
+    if pysat_inst.pandas_format:
+        if lat.shape != lt.shape or lat.shape[0] != pysat_inst.index.shape[
+                0] or (height.shape != lat.shape and len(height.shape) > 0):
             raise ValueError('unexpected height shape or bad lat/lt data')
-
-        # Use local time to set the initial coordinates, since it will have
-        # UT dependence and latitude may not
-        ocb_coords = [lt_coord for lt_coord
-                      in pysat_inst[mlt_name].coords.keys()]
-        combo_shape = list(lt.shape)
-
-        # Expand the coordinates if the lat coordinates are not the
-        # same as the LT coordinates or height coordinatess
-        for lat_coord in pysat_inst[mlat_name].coords:
-            if lat_coord not in pysat_inst[mlt_name].coords:
-                combo_shape.append(pysat_inst[lat_coord].shape[0])
-                ocb_coords.append(lat_coord)
-
-        # Reshape the latitude and local time data if necessary
-        if lat.shape != tuple(combo_shape) or lt.shape != tuple(combo_shape):
-            out_lat, out_lt = np.meshgrid(lat, lt)
-            lat = out_lat.reshape(combo_shape)
-            lt = out_lt.reshape(combo_shape)
-
-        # Determine if reshaping for altitude is necessary
-        if len(height.shape) == 0:
-            height = np.full(shape=lat.shape, fill_value=height)
-        elif height.shape != lat.shape:
-            if height_name in pysat_inst.variables:
-                new_coords = False
-                for alt_coord in pysat_inst[height_name].coords:
-                    if alt_coord not in ocb_coords:
-                        combo_shape.append(pysat_inst[alt_coord].shape[0])
-                        ocb_coords.append(alt_coord)
-                        new_coords = True
-
-                # Reshape the data
-                if new_coords:
-                    out_lat, out_height = np.meshgrid(lat, height)
-                    out_lt, _ = np.meshgrid(lt, height)
-                    lat = out_lat.reshape(combo_shape)
-                    height = out_height.reshape(combo_shape)
-                    lt = out_lt.reshape(combo_shape)
-                else:
-                    height = height.reshape(combo_shape)
-            elif len(height.shape) == len(lat.shape):
-                # Try and reshape the height
-                height = height.reshape(combo_shape)
-            else:
-                # Can't reshape the height
-                raise ValueError('unexpected height shape')
     else:
-        ocb_coords = [pysat_inst.index.name]
+        lat = expand_data_dims(pysat_inst.data[mlat_name], ocb_coords,
+                               pysat_inst.data.sizes).values
+        lt = expand_data_dims(pysat_inst.data[mlt_name], ocb_coords,
+                              pysat_inst.data.sizes).values
+
+        if height_name in pysat_inst.variables:
+            height = expand_data_dims(pysat_inst.data[height_name], ocb_coords,
+                                      pysat_inst.data.sizes).values
+        elif len(height.shape) == len(loc_shape):
+            # Reshape the height to match the dimensions of the location
+            # before adding the other dimensions of the data
+            height = height.reshape(loc_shape)
+            height = np.full(shape=tuple(reversed(lat.shape)),
+                             fill_value=height.transpose()).transpose()
+        elif len(height.shape) > 0:
+            # Can't reshape the height
+            raise ValueError('unexpected height shape')
 
     if len(height.shape) == 0:
         # Use the same height for each location
         height = np.full(shape=lat.shape, fill_value=height)
 
-    # See if the data has more dimensions than the OCB coordinates
-    if len(dat_coords) > len(ocb_coords):
-        combo_shape = list(lat.shape)
-        for dcoord in dat_coords:
-            if dcoord not in ocb_coords:
-                ocb_coords.append(dcoord)
-                combo_shape.append(pysat_inst[dcoord].shape[0])
-
-        # Reverse and transpose the arrays
-        combo_shape.reverse()
-        out_lat = np.full(shape=combo_shape, fill_value=lat.transpose())
-        out_lt = np.full(shape=combo_shape, fill_value=lt.transpose())
-        out_height = np.full(shape=combo_shape, fill_value=height.transpose())
-        lat = out_lat.transpose()
-        lt = out_lt.transpose()
-        height = out_height.transpose()
-
     # Initialise the OCB output
     ocb_output = dict()
     for oattr in ocb_names:
@@ -450,18 +424,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         if idat < ndat and ocb.rec_ind < ocb.records:
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
-            if len(dat_coords) > 1:
+            if len(ocb_coords) > 1:
                 iout = tuple(dind[time_ind] for dind in dat_ind)
-                if pysat_var_names > 1:
-                    # If there is more than one variable, need to downselect
-                    time_sel = pysat_inst[pysat_names].to_array().max(
-                        'variable')
-                else:
-                    time_sel = pysat_inst[pysat_names]
-
-                time_mask = np.isfinite(time_sel.where(
-                    finite_mask & (pysat_inst[pysat_inst.index.name]
-                                   == pysat_inst.index[uind][idat])))
+                time_mask = finite_mask.copy(data=np.zeros(
+                    shape=finite_mask.shape, dtype=bool))
+                time_mask.values[iout] = True
                 vind = iout[0]
             else:
                 iout = dat_ind[0][time_ind]
@@ -594,6 +561,32 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     return
 
 
+def expand_data_dims(data, dims, sizes):
+    """Expand and transpose data to have the desired dimensions.
+
+    Parameters
+    ----------
+    data : xr.DataArray
+        Data to be expanded.
+    dims : list
+        Ordered list of the desired dimensions, which must include all of the
+        dimensions of the input.
+    sizes : dict-like
+        Size of each dimension.
+
+    Returns
+    -------
+    out_data : xr.DataArray
+        Data with the desired dimensions in the desired order.
+
+    """
+    new_dims = {dim: sizes[dim] for dim in dims if dim not in data.dims}
+    out_data = data.drop_vars(list(data.coords))
+    out_data = out_data.expand_dims(new_dims).transpose(*dims)
+
+    return out_data
+
+
 def reshape_pad_mask_flatten(data, mask):
     """Reshape, pad, mask, and flatten data.
 
@@ -612,7 +605,7 @@ def reshape_pad_mask_flatten(data, mask):
     """
     if np.all(mask.dims == data.dims):
         if mask.shape == data.shape:
-            flat = data.where(mask, drop=True).values.flatten()
+            flat = data.values[mask.values]
         else:
             raise ValueError('different shapes for the same dimesions')
     else:
@@ -622,6 +615,14 @@ def reshape_pad_mask_flatten(data, mask):
 
         # Pad by adding the additional dimensions if needed
         if len(data_dims) < len(mask.dims):
+            if tuple(data_dims) != mask.dims[:len(data_dims)]:
+                # Only trailing dimensions may be missing, without this test
+                # dimensions of the same size would be mistaken for each other
+                raise ValueError(''.join(['vector variables must all have the',
+                                          ' same shape, mismatched dimensions ',
+                                          'for VectorData input: ',
+                                          repr(data.dims)]))
+
             try:
                 flat = np.full(shape=tuple(reversed(list(mask.shape))),
                                fill_value=flat.transpose()).transpose()
-- 
2.43.0


From 64ac7a22936a5b56f75d526cd25c1e7421d83d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 59/76] fix: load dual boundaries whose pair lies outside of
 the pysat data time

---
 ocbpy/instruments/pysat_instruments.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 0c3ac7b..7df10e0 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -203,9 +203,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                    instrument=instrument, hemisphere=hemisphere)
         elif fileroot == 'dual':
             # This works by assigning default to both, or allowing additional
-            # inputs through `kwargs`
-            init_keys = {'hemisphere': hemisphere, 'stime': dstart,
-                         'etime': dend}
+            # inputs through `kwargs`. Paired boundaries may be up to
+            # `max_delta` seconds apart
+            delta = dt.timedelta(seconds=kwargs.get('max_delta', 60))
+            init_keys = {'hemisphere': hemisphere, 'stime': dstart - delta,
+                         'etime': dend + delta}
             if len(kwargs.keys()) > 0:
                 sig = inspect.getfullargspec(ocbpy.DualBoundary.__init__)
                 for key in kwargs.keys():
-- 
2.43.0


From 0472de2831833f9b9e3fa941f84588d8e556b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 60/76] fix: set the radii of vector data without boundary
 coordinates

---
 ocbpy/ocb_scaling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 86148d4..4f5ad2d 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -686,6 +686,10 @@ class VectorData(object):
         # Exit if the OCB coordinates can't be calculated at this location
         if(np.all(np.isnan(self.ocb_lat)) or np.all(np.isnan(self.ocb_mlt))
            or np.all(np.isnan(self.r_corr))):
+            self.unscaled_r = np.full(shape=np.asarray(self.r_corr).shape,
+                                      fill_value=np.nan)
+            self.scaled_r = np.full(shape=self.unscaled_r.shape,
+                                    fill_value=np.nan)
             return
 
         # Set the AACGM coordinates of the OCB pole
-- 
2.43.0


From fb9140eedfbdf458b1e3486392f019ba52ca8fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 61/76] fix: allow all instruments of default boundary files
 for EABoundary

---
 ocbpy/_boundary.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 0d4f1c0..a062655 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -926,17 +926,23 @@ class EABoundary(OCBoundary):
                  rfunc_kwargs=None):
 
         # Process the defaults that differ for the EAB
-        if rfunc is None:
-            # Set to a function that will not alter the data
-            self._set_default_rfunc(instrument)
-            rfunc = self.rfunc
-            self.rfunc = None
+        rfunc_inst = instrument
 
         if(hasattr(filename, "lower") and hasattr(instrument, "lower")
            and filename.lower() == "default"):
             filename, instrument = get_default_file(stime, etime, hemisphere,
                                                     instrument, bound='eab')
 
+            if rfunc_inst in ['amp', 'si12', 'si13', 'wic']:
+                # These names may only be used to select a default file
+                rfunc_inst = ''
+
+        if rfunc is None:
+            # Set to a function that will not alter the data
+            self._set_default_rfunc(rfunc_inst)
+            rfunc = self.rfunc
+            self.rfunc = None
+
         # Initialize the class
         OCBoundary.__init__(self, filename=filename, instrument=instrument,
                             hemisphere=hemisphere, boundary_lat=boundary_lat,
-- 
2.43.0


From 89ed1f63b078c226ffa420365a31ea5ebed43c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 62/76] fix: list boundary files when other files are present
 in the directory

---
 ocbpy/boundaries/files.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index e99a102..430c02a 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -87,6 +87,12 @@ def get_boundary_files(bound='ocb'):
            and bfile.find(".py") < 0 and bfile.find("README") < 0
            and bfile[-3:].lower() == bound.lower()):
             file_info = bfile.lower()[:-4].split("_")
+
+            if len(file_info) < 2 or file_info[1] not in hemi.keys():
+                ocbpy.logger.warning(
+                    'Unknown boundary file present: [{:s}]'.format(bfile))
+                continue
+
             boundary_files[bfile] = {"instrument": file_info[0],
                                      "hemisphere": hemi[file_info[1]]}
 
@@ -99,7 +105,7 @@ def get_boundary_files(bound='ocb'):
                         file_info[2], '%Y%m%d')
                     boundary_files[bfile]["etime"] = dt.datetime.strptime(
                         file_info[3], '%Y%m%d')
-                except ValueError as verr:
+                except (IndexError, ValueError) as verr:
                     err = 'Unknown boundary file present: [{:s}]\n{:}'.format(
                         bfile, verr)
                     ocbpy.logger.warning(err)
-- 
2.43.0


From baeaad948765466c6dca86b77951e2e6a1f424a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 63/76] fix: format DMSP SSJ files with a single pass

---
 ocbpy/boundaries/dmsp_ssj_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 4cf3381..bbfc4a0 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -349,8 +349,8 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
             header_list = head_line.split("\n")[0].split(",")
 
             # Load the file data
-            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',')
-            if len(data.shape) != 2 or data.shape[1] != len(header_list):
+            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',', ndmin=2)
+            if data.shape[0] == 0 or data.shape[1] != len(header_list):
                 bad_files.append(infile)
             else:
                 # Establish the desired data indices
-- 
2.43.0


From 471a380379b98f06f5e4a668e908cf954eb772d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 64/76] fix: raise the documented error if the DMSP SSJ link
 holds no zip archive

---
 ocbpy/boundaries/dmsp_ssj_files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index bbfc4a0..7ac23e6 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -134,6 +134,8 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
         # If the archive is already available, message may differ
         zip_name = os.path.split(zen_split[link_ind])
         while zip_name[-1].find(".zip") <= 0:
+            if zip_name[0] == os.path.dirname(zip_name[0]):
+                raise ValueError("no zip archive in link")
             zip_name = os.path.split(zip_name[0])
 
         # Set the archive name
-- 
2.43.0


From fbf64185fb9e02986695d6c77f63194b654d0975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 65/76] fix: raise the documented error if the DMSP SSJ
 download is aborted

---
 ocbpy/boundaries/dmsp_ssj_files.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 7ac23e6..f46719c 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -112,8 +112,13 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
     zenodo_io = StringIO()
     zenodo_checksum = os.path.join(out_dir, 'md5sums.txt')
 
-    with redirect_stdout(zenodo_io), redirect_stderr(zenodo_io):
-        zenodo_get.zenodo_get([doi, '-o', out_dir])
+    try:
+        with redirect_stdout(zenodo_io), redirect_stderr(zenodo_io):
+            zenodo_get.zenodo_get([doi, '-o', out_dir])
+    except SystemExit:
+        # Raised for problems with the downloaded file, e.g., a bad checksum
+        raise IOError('unable to download zenodo archive: {:s}'.format(
+            zenodo_io.getvalue()))
 
     # Parse the output and retrieve files from the zip archive
     zen_msg = zenodo_io.getvalue()
-- 
2.43.0


From dd47142b708847f3d6504f201f3c088965a7e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 66/76] fix: represent boundary objects with a correction
 function and no records

---
 ocbpy/_boundary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index a062655..ae20fa4 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -203,6 +203,8 @@ class OCBoundary(object):
         # Format the function representations
         if self.rfunc is None:
             repr_rfunc = repr(self.rfunc)
+        elif isinstance(self.rfunc, types.FunctionType):
+            repr_rfunc = ".".join([self.rfunc.__module__, self.rfunc.__name__])
         else:
             rfuncs = [".".join([ff.__module__, ff.__name__])
                       for ff in self.rfunc]
@@ -214,7 +216,7 @@ class OCBoundary(object):
                     ', '.join(rfuncs))
 
         # Format the function kwarg representations
-        if self.rfunc_kwargs is None:
+        if self.rfunc_kwargs is None or isinstance(self.rfunc_kwargs, dict):
             repr_rfunc_kwargs = repr(self.rfunc_kwargs)
         else:
             rfuncs_kwargs = [repr(rkwarg) for rkwarg in self.rfunc_kwargs]
-- 
2.43.0


From 5bd5f69f45271527d61d8a2327c0b0e88c0c0040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 67/76] fix: represent all records of boundaries that are not
 sorted by time

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index ae20fa4..5b13569 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -197,8 +197,8 @@ class OCBoundary(object):
         class_name = repr(self.__class__).split("'")[1]
 
         # Get the start and end times
-        stime = None if self.records == 0 else self.dtime[0]
-        etime = None if self.records == 0 else self.dtime[-1]
+        stime = None if self.records == 0 else min(self.dtime)
+        etime = None if self.records == 0 else max(self.dtime)
 
         # Format the function representations
         if self.rfunc is None:
-- 
2.43.0


From 893671ee322bc0d6859407c9147d16144f528789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 68/76] fix: keep the time limits in the representation of
 boundaries without records

---
 ocbpy/_boundary.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 5b13569..858b9b7 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -171,6 +171,7 @@ class OCBoundary(object):
         self.rfunc_kwargs = rfunc_kwargs
         self.min_fom = -np.inf
         self.max_fom = np.inf
+        self._load_times = (None, None)
 
         # Get the instrument defaults
         hlines, ocb_cols, datetime_fmt = self.inst_defaults()
@@ -197,8 +198,12 @@ class OCBoundary(object):
         class_name = repr(self.__class__).split("'")[1]
 
         # Get the start and end times
-        stime = None if self.records == 0 else min(self.dtime)
-        etime = None if self.records == 0 else max(self.dtime)
+        if self.records == 0:
+            # Without records, use the times requested when loading the file
+            stime, etime = self._load_times
+        else:
+            stime = min(self.dtime)
+            etime = max(self.dtime)
 
         # Format the function representations
         if self.rfunc is None:
@@ -379,6 +384,7 @@ class OCBoundary(object):
         #
         # Start by getting the time and location in the desired format
         self.rec_ind = -1
+        self._load_times = (stime, etime)
 
         dt_list = list()
         if stime is None and etime is None:
-- 
2.43.0


From e72389d0587bd5cd2443f8676908fc0261a00860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 69/76] fix: represent vector data with full precision, long
 arrays, and any name

---
 ocbpy/ocb_scaling.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 4f5ad2d..36b00a2 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -18,6 +18,7 @@ References
 
 import aacgmv2
 import numpy as np
+import sys
 
 import ocbpy
 from ocbpy import ocb_time
@@ -161,23 +162,26 @@ class VectorData(object):
             repr_func = ".".join([self.scale_func.__module__,
                                   self.scale_func.__name__])
 
-        # Format the base output
-        out = "".join(["ocbpy.ocb_scaling.VectorData(", repr(self.dat_ind),
-                       ", ", repr(self.ocb_ind), ", ", repr(self.lat),
-                       ", ", repr(self.lt), ", height=", repr(self.height),
-                       ", loc_coord=", repr(self.loc_coord), ", ocb_lat=",
-                       repr(self.ocb_lat), ", ocb_mlt=", repr(self.ocb_mlt),
-                       ", r_corr=", repr(self.r_corr), ", vect_n=",
-                       repr(self.vect_n), ", vect_e=", repr(self.vect_e),
-                       ", vect_z=", repr(self.vect_z), ", vect_mag=",
-                       repr(self.vect_mag), ", vect_coord=",
-                       repr(self.vect_coord), ", dat_name=",
-                       repr(self.dat_name), ", dat_units=",
-                       repr(self.dat_units), ", scale_func=", repr_func, ")"])
+        # Format the base output, using complete arrays with full precision
+        with np.printoptions(threshold=sys.maxsize, floatmode='unique'):
+            out = "".join(["ocbpy.ocb_scaling.VectorData(", repr(self.dat_ind),
+                           ", ", repr(self.ocb_ind), ", ", repr(self.lat),
+                           ", ", repr(self.lt), ", height=", repr(self.height),
+                           ", loc_coord=", repr(self.loc_coord), ", ocb_lat=",
+                           repr(self.ocb_lat), ", ocb_mlt=",
+                           repr(self.ocb_mlt), ", r_corr=", repr(self.r_corr),
+                           ", vect_n=", repr(self.vect_n), ", vect_e=",
+                           repr(self.vect_e), ", vect_z=", repr(self.vect_z),
+                           ", vect_mag=", repr(self.vect_mag)])
 
         # Reformat the numpy representations
         out = out.replace('array', 'numpy.array')
 
+        # Add the remaining output
+        out = "".join([out, ", vect_coord=", repr(self.vect_coord),
+                       ", dat_name=", repr(self.dat_name), ", dat_units=",
+                       repr(self.dat_units), ", scale_func=", repr_func, ")"])
+
         return out
 
     def __str__(self):
-- 
2.43.0


From 587501d58e5611ea62b614a56d1e96f9572bca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 70/76] fix: use a single vector magnitude for all locations

---
 ocbpy/ocb_scaling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 36b00a2..2b78aec 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -483,6 +483,11 @@ class VectorData(object):
                 ocbpy.logger.warning("".join([
                     "inconsistent vector components with a maximum difference ",
                     "of {:} > 1.0e-3".format(abs(vect_mag - vect_sqrt).max())]))
+
+            # A single magnitude is valid for all vectors
+            if vect_mag.shape == () and vect_sqrt.shape != ():
+                vect_mag = np.full(shape=vect_sqrt.shape, fill_value=vect_mag)
+
             self._vect_mag = vect_mag
         return
 
-- 
2.43.0


From aba02088996f4f35ffb02b3bca42fe9159c87386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 71/76] fix: refuse dual boundaries from objects with the OCB
 equatorward of the EAB

---
 ocbpy/_boundary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 858b9b7..72d31b6 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1136,6 +1136,10 @@ class DualBoundary(object):
         if self.hemisphere != self.eab.hemisphere:
             raise ValueError('mismatched hemisphere assignment')
 
+        # Ensure the boundary latitudes of provided objects are also realistic
+        if abs(self.eab.boundary_lat) >= abs(self.ocb.boundary_lat):
+            raise ValueError('OCB must be poleward of the EAB')
+
         # Create a time index, saving indices where both boundaries are good
         self.max_delta = max_delta
         self.set_good_ind()
-- 
2.43.0


From a7f706139c0d6d06fc2154bf6824f049dc2cb87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 72/76] fix: use the original corrections when boundary data
 are loaded again

---
 ocbpy/_boundary.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 72d31b6..fc99426 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -172,6 +172,7 @@ class OCBoundary(object):
         self.min_fom = -np.inf
         self.max_fom = np.inf
         self._load_times = (None, None)
+        self._load_corr = {}
 
         # Get the instrument defaults
         hlines, ocb_cols, datetime_fmt = self.inst_defaults()
@@ -429,6 +430,15 @@ class OCBoundary(object):
         self.records = len(dt_list)
         self.dtime = np.array(dt_list)
 
+        # If the corrections were expanded when loading data before, use the
+        # original input again
+        for attr, (orig_val, load_val) in self._load_corr.items():
+            if getattr(self, attr) is load_val:
+                setattr(self, attr, orig_val)
+
+        orig_corr = {attr: getattr(self, attr)
+                     for attr in ['rfunc', 'rfunc_kwargs']}
+
         # Set the boundary function
         if self.rfunc is None:
             self._set_default_rfunc()
@@ -452,6 +462,9 @@ class OCBoundary(object):
         else:
             raise ValueError("Unknown input type for correction keywords")
 
+        self._load_corr = {attr: (orig_corr[attr], getattr(self, attr))
+                           for attr in orig_corr.keys()}
+
         # Load the attributes saved in odata
         for nn in oname:
             setattr(self, nn, getattr(odata, nn)[itime])
-- 
2.43.0


From d655ce4b70cfe7ce1dc8e8248ce4b08522fe18bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 73/76] fix: remove boundary locations of earlier data when
 loading boundary data

---
 ocbpy/_boundary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index fc99426..9128fb6 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -469,6 +469,12 @@ class OCBoundary(object):
         for nn in oname:
             setattr(self, nn, getattr(odata, nn)[itime])
 
+        # Remove boundary locations calculated for data loaded before
+        for attr in ['aacgm_boundary_lat', 'aacgm_boundary_mlt',
+                     'aacgm_boundary_lon']:
+            if hasattr(self, attr):
+                delattr(self, attr)
+
         return
 
     def get_next_good_ocb_ind(self, min_merit=None, max_merit=None, **kwargs):
-- 
2.43.0


From e7893482be3194c2a5ad35e251fdea1879a54084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 74/76] fix: do not warn at random about missing vector
 magnitudes

---
 ocbpy/ocb_scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 2b78aec..015f7d8 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -478,11 +478,11 @@ class VectorData(object):
         if np.all(np.isnan(vect_mag)):
             self._vect_mag = vect_sqrt
         else:
-            if np.any(np.greater(abs(vect_mag - vect_sqrt), 1.0e-3,
-                                 where=~np.isnan(vect_mag))):
+            # Missing magnitudes and components are never inconsistent
+            if np.any(abs(vect_mag - vect_sqrt) > 1.0e-3):
                 ocbpy.logger.warning("".join([
                     "inconsistent vector components with a maximum difference ",
-                    "of {:} > 1.0e-3".format(abs(vect_mag - vect_sqrt).max())]))
+                    "of {:} > 1.0e-3".format(np.nanmax(abs(vect_mag - vect_sqrt)))]))
 
             # A single magnitude is valid for all vectors
             if vect_mag.shape == () and vect_sqrt.shape != ():
-- 
2.43.0


From 40f329afa9ff43afec23fd415e2ebb846c903d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 75/76] fix: print the values of a scalar vector only once in
 the summary

---
 ocbpy/ocb_scaling.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 015f7d8..407dd2b 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -250,15 +250,21 @@ class VectorData(object):
             for i, mag in enumerate(self.ocb_mag):
                 if self.vect_mag.shape == () and i == 0:
                     vec_line = ''.join([
-                        self.vect_coord, ": {:.3g}".format(self.vect_mag),
+                        '\n', self.vect_coord,
+                        ": {:.3g}".format(self.vect_mag),
                         " [{:.3g}, {:.3g}, ".format(self.vect_n, self.vect_e),
                         "{:.3g}] {:d}".format(self.vect_z, self.dat_ind)])
                 elif self.vect_mag.shape != ():
                     vec_line = ''.join([
-                        self.vect_coord, ": {:.3g} [".format(self.vect_mag[i]),
+                        '\n', self.vect_coord,
+                        ": {:.3g} [".format(self.vect_mag[i]),
                         "{:.3g}, {:.3g}".format(self.vect_n[i], self.vect_e[i]),
                         ", {:.3g}] {:d}".format(self.vect_z[i],
                                                 self.dat_ind[i])])
+                else:
+                    # A scalar vector is only printed once
+                    vec_line = ''
+
                 if not np.isnan(mag):
                     vec_line = "".join([
                         vec_line, "\n     OCB: {:.3g} [".format(mag),
@@ -266,7 +272,7 @@ class VectorData(object):
                         "{:.3g}] {:d}".format(
                             self.ocb_z[i], self.ocb_ind
                             if self.ocb_ind.shape == () else self.ocb_ind[i])])
-                out = '\n'.join([out, vec_line])
+                out = ''.join([out, vec_line])
 
         # Print the scaling information
         out = "\n".join([out, "-------------------------------------------",
@@ -482,7 +488,8 @@ class VectorData(object):
             if np.any(abs(vect_mag - vect_sqrt) > 1.0e-3):
                 ocbpy.logger.warning("".join([
                     "inconsistent vector components with a maximum difference ",
-                    "of {:} > 1.0e-3".format(np.nanmax(abs(vect_mag - vect_sqrt)))]))
+                    "of {:} > 1.0e-3".format(
+                        np.nanmax(abs(vect_mag - vect_sqrt)))]))
 
             # A single magnitude is valid for all vectors
             if vect_mag.shape == () and vect_sqrt.shape != ():
-- 
2.43.0


From 1a748bb0ed5670f2a6e19d41a1f70a4e44cd8fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:10 +0000
Subject: [PATCH 76/76] fix: leave the selection dictionaries given to
 DualBoundary.set_good_ind unchanged

---
 ocbpy/_boundary.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 9128fb6..b6c7c31 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1298,16 +1298,14 @@ class DualBoundary(object):
         self.eab.rec_ind = -1
 
         # Get the good OCB indices
-        if ocb_kwargs is None:
-            ocb_kwargs = {}
+        ocb_kwargs = {} if ocb_kwargs is None else dict(ocb_kwargs)
         ocb_kwargs['min_merit'] = ocb_min_merit
         ocb_kwargs['max_merit'] = ocb_max_merit
         good_ocb = cycle_boundary.retrieve_all_good_indices(self.ocb,
                                                             **ocb_kwargs)
 
         # Initialize the EAB good index selection options
-        if eab_kwargs is None:
-            eab_kwargs = {}
+        eab_kwargs = {} if eab_kwargs is None else dict(eab_kwargs)
         eab_kwargs['min_merit'] = eab_min_merit
         eab_kwargs['max_merit'] = eab_max_merit
 
-- 
2.43.0

