From 2a90a6cc91ab5d457b24ed3b0926dd88ce492d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 01/39] fix: discover reducers and fitters without the removed
 loader.find_module

Python 3.12 removed FileFinder.find_module, so neither package could be
imported and the reducer chain, the fitter factory and every script failed.
Also skip dunder members, which replaced the package's own __name__.
---
 CHECLabPy/spectrum_fitters/__init__.py  | 5 +++--
 CHECLabPy/waveform_reducers/__init__.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/CHECLabPy/spectrum_fitters/__init__.py b/CHECLabPy/spectrum_fitters/__init__.py
index 575a152..181510e 100644
--- a/CHECLabPy/spectrum_fitters/__init__.py
+++ b/CHECLabPy/spectrum_fitters/__init__.py
@@ -6,9 +6,10 @@ __all__ = []
 
 import pkgutil
 import inspect
+from importlib import import_module
 
-for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+for _, name, _ in pkgutil.iter_modules(__path__):
+    module = import_module(f"{__name__}.{name}")
 
     for name, value in inspect.getmembers(module):
         if name.startswith('__'):
diff --git a/CHECLabPy/waveform_reducers/__init__.py b/CHECLabPy/waveform_reducers/__init__.py
index 4c780a9..3b9dab3 100644
--- a/CHECLabPy/waveform_reducers/__init__.py
+++ b/CHECLabPy/waveform_reducers/__init__.py
@@ -13,12 +13,13 @@ __all__ = []
 
 import pkgutil
 import inspect
+from importlib import import_module
 
-for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+for _, name, _ in pkgutil.iter_modules(__path__):
+    module = import_module(f"{__name__}.{name}")
 
     for key, value in inspect.getmembers(module):
-        if name.startswith('__'):
+        if key.startswith('__'):
             continue
 
         globals()[key] = value
-- 
2.43.0


From 9fb65119cbe5c5aadaf03a8a53c26508ff52d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 02/39] fix: use the builtin types in place of the removed
 np.bool and np.int aliases

PixelMasks, AmplitudeMatcher and SimtelReader raised AttributeError.
---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 CHECLabPy/calib/pixel_masks.py       | 6 +++---
 CHECLabPy/core/io/simtel.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index b291737..7ad6476 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -50,7 +50,7 @@ class AmplitudeMatcher:
         self.starting_dacs = starting_dacs.ravel()
 
         if bad_hv is None:
-            self.sp_mask = np.zeros(n_superpixels, dtype=np.bool)
+            self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
                 bad_hv.reshape((n_superpixels, 4)).all(1)
diff --git a/CHECLabPy/calib/pixel_masks.py b/CHECLabPy/calib/pixel_masks.py
index eab3dfc..71db956 100644
--- a/CHECLabPy/calib/pixel_masks.py
+++ b/CHECLabPy/calib/pixel_masks.py
@@ -28,9 +28,9 @@ class PixelMasks:
         path : str
             OPTIONAL specify a particular pixel mask file to load
         """
-        self.dead = np.zeros(N_PIXELS, dtype=np.bool)
-        self.low = np.zeros(N_PIXELS, dtype=np.bool)
-        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=np.bool)
+        self.dead = np.zeros(N_PIXELS, dtype=bool)
+        self.low = np.zeros(N_PIXELS, dtype=bool)
+        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=bool)
         self._load_file(path=path, merge=False)
 
     def _load_file(self, path=None, merge=False):
diff --git a/CHECLabPy/core/io/simtel.py b/CHECLabPy/core/io/simtel.py
index fdc695b..dd8e3dd 100644
--- a/CHECLabPy/core/io/simtel.py
+++ b/CHECLabPy/core/io/simtel.py
@@ -68,8 +68,8 @@ class SimtelReader(WaveformReader):
         pix_x = engineering_geom.pix_x.value
         pix_y = engineering_geom.pix_y.value
         row, col = get_row_column(pix_x, pix_y)
-        camera_2d = np.zeros((n_rows, n_columns), dtype=np.int)
-        camera_2d[row, col] = np.arange(self.n_pixels, dtype=np.int)
+        camera_2d = np.zeros((n_rows, n_columns), dtype=int)
+        camera_2d[row, col] = np.arange(self.n_pixels, dtype=int)
         self.pixel_order = camera_2d[self.mapping['row'], self.mapping['col']]
 
         self.reference_pulse_path = self._camera_config.GetReferencePulsePath()
-- 
2.43.0


From 09ed582095c9291fa8526124281e240b469595e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 03/39] fix: time correction divided by zero for whole-sample
 corrections

floor(x) and ceil(x) are equal for an integer x, so the interpolation
between them divided by zero.
---
 CHECLabPy/calib/time_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/calib/time_calibrator.py b/CHECLabPy/calib/time_calibrator.py
index 63c4314..40ed92e 100644
--- a/CHECLabPy/calib/time_calibrator.py
+++ b/CHECLabPy/calib/time_calibrator.py
@@ -1,7 +1,7 @@
 import pandas as pd
 from CHECLabPy.calib import get_calib_data
 from numba import njit, prange, float64, float32
-from math import floor, ceil
+from math import floor
 
 
 @njit([
@@ -16,7 +16,7 @@ def apply_t_cor(waveforms, t_cor):
         for isample in prange(n_samples):
             x = isample - correction
             x1 = floor(x)
-            x2 = ceil(x)
+            x2 = x1 + 1
             if x1 < 0:
                 x1 = 0
                 x2 = 1
-- 
2.43.0


From eea0a478fea53d1ad733f2c8bdc598841e6434aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 04/39] fix: extract_dl1 used the removed pd.datetime for the
 file metadata

---
 CHECLabPy/scripts/extract_dl1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index c5b665b..737c133 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -3,6 +3,7 @@ Executable for processing the R1 waveforms, and storing the reduced parameters
 into a HDF5 file, readable as a `pandas.DataFrame`.
 """
 import argparse
+from datetime import datetime
 import numpy as np
 import pandas as pd
 from tqdm import tqdm
@@ -138,7 +139,7 @@ class DL1Extractor:
             source=self.source,
             run_id=self.reader.run_id,
             is_mc=self.reader.is_mc,
-            date_generated=pd.datetime.now(),
+            date_generated=datetime.now(),
             input_path=self.reader.path,
             n_modules=self.reader.n_modules,
             n_pixels=self.reader.n_pixels,
-- 
2.43.0


From 6f2ed391b56d5f717c273d84974e9f9e130ccc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 05/39] fix: HDF5 files with a custom-named metadata-only key
 could not be opened

The HDF5 attribute lookup raises AttributeError, not KeyError, when a key
has no 'metadata' entry.
---
 CHECLabPy/core/io/hdf5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/hdf5_reader.py b/CHECLabPy/core/io/hdf5_reader.py
index 57ccb84..e804f11 100644
--- a/CHECLabPy/core/io/hdf5_reader.py
+++ b/CHECLabPy/core/io/hdf5_reader.py
@@ -48,7 +48,7 @@ class HDF5Reader:
             key = key[1:]
             try:
                 n_bytes = self.store.get_storer(key).attrs.metadata['n_bytes']
-            except KeyError:
+            except (AttributeError, KeyError):
                 n_bytes = 0
             if key in ['mapping']:
                 continue
-- 
2.43.0


From a94ea3664a499cc7a8ce1349f1424a86da6ce6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 06/39] fix: obtain_dead_pixel_list_r1 read the event index
 from the wrong object

---
 CHECLabPy/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index 72bf977..9baae33 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -169,7 +169,7 @@ def obtain_dead_pixel_list_r1(source, threshold_percent=0.1, max_events=100):
     n_samples = source.n_samples
     array = np.zeros((n_events, n_pixels, n_samples))
     for waveforms in source:
-        iev = source.index
+        iev = waveforms.iev
         if iev >= n_events:
             break
         array[iev] = waveforms
-- 
2.43.0


From d01e0e1e54a4160b6034186c4b4ce61279a5b27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 07/39] fix: AmplitudeMatcher ignored the reduction of a
 per-pixel bad HV mask

The reduced mask was discarded, so superpixels were masked using the entries
of unrelated pixels.
---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index 7ad6476..d1fb7d9 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -53,7 +53,7 @@ class AmplitudeMatcher:
             self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
-                bad_hv.reshape((n_superpixels, 4)).all(1)
+                bad_hv = bad_hv.reshape((n_superpixels, 4)).all(1)
             self.sp_mask = bad_hv.ravel()
 
         self.illumination_profile = illumination_profile
-- 
2.43.0


From 661e01c8bb37d80a48e2bf33841444d2dec4392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 08/39] fix: AmplitudeMatcher.process returned a flat array
 once finished

The docstring promises the DAC values in shape (32, 16).
---
 CHECLabPy/calib/amplitude_matcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index d1fb7d9..578c09f 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -175,7 +175,8 @@ class AmplitudeMatcher:
             self.global_stage += 1
 
         if self.global_stage == GLOBALSTAGE.FINISH:
-            return self.current_dac, average_amplitude_pix, True
+            dac = self.current_dac.reshape((32, 16))
+            return dac, average_amplitude_pix, True
 
         next_dac = self._get_next_dac(distance, direction)
         finished = (self.stage == STAGE.FINISH).all()
-- 
2.43.0


From 266bb8d23e9cc5dccbef9b6936739d70f557b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 09/39] fix: Gentile spectrum lost every photoelectron peak for
 large illuminations

For lambda_ above ~12 the contribution of k=1 is skipped as insignificant,
and the loop ended there, before reaching the peaks that matter.
---
 CHECLabPy/spectrum_fitters/gentile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/spectrum_fitters/gentile.py b/CHECLabPy/spectrum_fitters/gentile.py
index 776b118..7abe64f 100644
--- a/CHECLabPy/spectrum_fitters/gentile.py
+++ b/CHECLabPy/spectrum_fitters/gentile.py
@@ -110,7 +110,7 @@ def sipm_gentile_spe(x, eped, eped_sigma, spe, spe_sigma, opct, lambda_):
         # Skip insignificant probabilities
         if pk > pk_max:
             pk_max = pk
-        elif pk < 1e-4:
+        elif pk < 1e-4 and pk_max > 0:
             break
 
         # Combine spread of pedestal and pe peaks
-- 
2.43.0


From 7a4eb3c36440afe4e2b0620c8f4f21e50c59490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 10/39] fix: loaded SpectrumFitter configuration had no effect
 on the fit

load_config and update_initial changed the parameters without refreshing the
arguments that are passed to Minuit.
---
 CHECLabPy/core/spectrum_fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/core/spectrum_fitter.py b/CHECLabPy/core/spectrum_fitter.py
index 746c03f..6b5a4f7 100644
--- a/CHECLabPy/core/spectrum_fitter.py
+++ b/CHECLabPy/core/spectrum_fitter.py
@@ -170,6 +170,7 @@ class SpectrumFitter:
                 d.pop('fixed')
             if d:
                 print(f"WARNING: Unused SpectrumFitter config parameters:\n{d}")
+            self.parameters.update(self.parameters)
 
     def save_config(self, path):
         """
@@ -252,6 +253,7 @@ class SpectrumFitter:
                 param.initial = self.fit_result_values[f"{param.name}{illumination}"]
             else:
                 param.initial = self.fit_result_values[param.name]
+        self.parameters.update(self.parameters)
 
     def apply(self, *charges):
         """
-- 
2.43.0


From e275629ea0b13622e719477af1cedacda8fc15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 11/39] fix: HDF5Appender recorded the wrong number of bytes
 for existing tables

n_bytes only counted the rows added in the last session, total_bytes counted
overwritten tables twice, and overwriting the 'data' table lost the
total_bytes entry the session needed to finish.
---
 CHECLabPy/core/io/hdf5_appender.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 78d7268..58340c7 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -35,6 +35,8 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         self.n_bytes = defaultdict(int)
 
         self._generate_contents_list()
+        for key in self.dataframe_keys:
+            self.n_bytes[key] = self.get_n_bytes(key)
 
         if parse(self.version).release[0] < parse(__version__).release[0]:
             warnings.warn(
@@ -72,13 +74,11 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         the metadata. This is method is automatically called when HDF5Writer
         is used in a context manager (i.e. `with HDF5Writer(path) as writer:`)
         """
-        total_bytes = self.get_metadata()['total_bytes']
         for key in self.keys:
             self._append_to_store(key)
             self.add_metadata(key=key, n_bytes=self.n_bytes[key])
-            total_bytes += self.n_bytes[key]
         self.add_metadata(
-            total_bytes=total_bytes,
+            total_bytes=sum(self.n_bytes.values()),
             version=__version__,
         )
         self._save_metadata()
-- 
2.43.0


From 6294465a7e2f2bd530ebe4b4755a782588f9183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 12/39] fix: HDF5Appender could not add a table where only
 metadata was stored

Metadata without a table is attached to an empty placeholder, which
HDFStore.append refuses to extend.
---
 CHECLabPy/core/io/hdf5_appender.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 58340c7..5dd0cca 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -55,6 +55,18 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.finish()
 
+    def _append_to_store(self, key, expectedrows=None):
+        if self.df_list[key] and key in self.metadata_keys \
+                and key not in self.dataframe_keys:
+            # Replace the placeholder which only exists to hold metadata
+            for name in self.metadata_keys[key]:
+                self.metadata[key][name] = {
+                    **self.get_metadata(key, name), **self.metadata[key][name]
+                }
+            self.store.remove(key)
+            self.dataframe_keys.append(key)
+        super()._append_to_store(key, expectedrows)
+
     def _save_metadata(self):
         print("Saving metadata to HDF5 file")
         for key, submeta in self.metadata.items():
-- 
2.43.0


From 81365ddcc4cf5c2eea499e6925a313df3de9088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 13/39] fix: get_tc_mapping_from_clp_mapping read the metadata
 dict as an object

---
 CHECLabPy/utils/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index a0dfd14..9ca40f3 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -70,8 +70,8 @@ def get_tc_mapping_from_clp_mapping(mapping):
 
     """
     from target_calib import Mapping
-    cfgfile = mapping.metadata.cfgfile
-    is_single_module = mapping.metadata.is_single_module
+    cfgfile = mapping.metadata['cfgfile']
+    is_single_module = mapping.metadata['is_single_module']
     return Mapping(cfgfile, is_single_module)
 
 
-- 
2.43.0


From 3ede5d657b7dd706773e42283ee2e28569ac8af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 14/39] fix: DL1Reader.tc_mapping looked up the camera version
 in the wrong place

The mapping metadata is a dict without a version; the camera version is part
of the file metadata.
---
 CHECLabPy/core/io/dl1_reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CHECLabPy/core/io/dl1_reader.py b/CHECLabPy/core/io/dl1_reader.py
index e7a68a7..34c3a66 100644
--- a/CHECLabPy/core/io/dl1_reader.py
+++ b/CHECLabPy/core/io/dl1_reader.py
@@ -89,8 +89,7 @@ class DL1Reader(HDF5Reader):
         Obtain the TargetCalib mapping class
         """
         from target_calib import CameraConfiguration
-        version = self.mapping.metadata.version
-        camera_config = CameraConfiguration(version)
+        camera_config = CameraConfiguration(self.camera_version)
         return camera_config.GetMapping(self.n_modules == 1)
 
     @property
-- 
2.43.0


From 9ca609febf17444d375f2630676905f4162f9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 15/39] fix: annotate_tm_edge_label used the removed
 DataFrame.ix

---
 CHECLabPy/plotting/camera.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index 2a14f7a..b6f8d9d 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -227,8 +227,8 @@ class CameraImage(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             pix_size = self._mapping.metadata['size']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
@@ -493,8 +493,8 @@ class CameraImageImshow(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             n_rows = m.metadata['n_rows']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
-- 
2.43.0


From fa7c7c2781c863ef65cc2df1c2db3a6c5521096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 16/39] fix: SpectrumFitPlotter used the removed prop_cycler
 attribute

---
 CHECLabPy/plotting/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/plotting/spe.py b/CHECLabPy/plotting/spe.py
index ffe3146..17bb1b4 100644
--- a/CHECLabPy/plotting/spe.py
+++ b/CHECLabPy/plotting/spe.py
@@ -14,7 +14,7 @@ class SpectrumFitPlotter(Plotter):
     def plot(self, hist_x, hist_y, hist_edges, fit_x, fit_y, values, errors, initial):
         for i in range(self.n_illuminations):
             label = f"λ_{i} = {values[f'lambda_{i}']:.3f} ± {errors[f'lambda_{i}']:.3f} p.e."
-            color = next(self.ax._get_lines.prop_cycler)['color']
+            color = self.ax._get_lines.get_next_color()
             self.ax.hist(
                 hist_x,  weights=hist_y[i], bins=hist_edges,
                 histtype='step', color=color
-- 
2.43.0


From 36bb148dd30836a68190a759949b2d45905a7094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 17/39] fix: extract_spe stored the pixels in the order the
 processes finished

plot_spe (and CameraImage) take the rows in pixel order.
---
 CHECLabPy/scripts/extract_spe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index efc908a..92dec9f 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -153,9 +153,9 @@ def main():
     df_values = pd.DataFrame(list(pixel_fitter.pixel_values.values()))
     df_errors = pd.DataFrame(list(pixel_fitter.pixel_errors.values()))
     df_arrays = pd.DataFrame(list(pixel_fitter.pixel_arrays.values()))
-    df_values = df_values.set_index('pixel')
-    df_errors = df_errors.set_index('pixel')
-    df_arrays = df_arrays.set_index('pixel')
+    df_values = df_values.set_index('pixel').sort_index()
+    df_errors = df_errors.set_index('pixel').sort_index()
+    df_arrays = df_arrays.set_index('pixel').sort_index()
 
     with HDF5Writer(output_path) as writer:
         with warnings.catch_warnings():
-- 
2.43.0


From 4e5a1485c8a8b2c5570eae2f386b3c101535b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 18/39] fix: ChargeStatistics gave a NaN standard deviation for
 constant charges

Rounding can make the difference of the two terms slightly negative.
---
 CHECLabPy/utils/resolutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/utils/resolutions.py b/CHECLabPy/utils/resolutions.py
index 4a0f9d2..6495828 100644
--- a/CHECLabPy/utils/resolutions.py
+++ b/CHECLabPy/utils/resolutions.py
@@ -212,7 +212,7 @@ class ChargeStatistics:
         sum2 = df_p['sum2'].values
         n = df_p['n'].values
         mean = sum_ / n
-        std = np.sqrt((sum2 / n) - (mean**2))
+        std = np.sqrt(np.maximum((sum2 / n) - (mean**2), 0))
         df_p['mean'] = mean
         df_p['std'] = std
         df_c = self._df.copy().groupby('amplitude').sum().reset_index()
@@ -221,7 +221,7 @@ class ChargeStatistics:
         sum2 = df_c['sum2'].values
         n = df_c['n'].values
         mean = sum_ / n
-        std = np.sqrt((sum2 / n) - (mean**2))
+        std = np.sqrt(np.maximum((sum2 / n) - (mean**2), 0))
         df_c['mean'] = mean
         df_c['std'] = std
         return df_p, df_c
-- 
2.43.0


From 1f1e74b134a22c991bd7e671c5a9b677fc6dbdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 19/39] fix: extract_pulse_time read samples from outside of
 the waveform

A peak at the first or last sample was interpolated with the opposite end of
the waveform, or with the memory that follows it.
---
 CHECLabPy/waveform_reducers/cross_correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CHECLabPy/waveform_reducers/cross_correlation.py b/CHECLabPy/waveform_reducers/cross_correlation.py
index 94078d9..88c3dce 100644
--- a/CHECLabPy/waveform_reducers/cross_correlation.py
+++ b/CHECLabPy/waveform_reducers/cross_correlation.py
@@ -16,6 +16,9 @@ from numba import guvectorize, float64, float32, int64
 )
 def extract_pulse_time(waveforms, peak_index, ret):
     n_samples = waveforms.size
+    if not 0 < peak_index < n_samples - 1:
+        ret[0] = peak_index
+        return
     y0 = waveforms[peak_index - 1]
     y1 = waveforms[peak_index]
     y2 = waveforms[peak_index + 1]
-- 
2.43.0


From 3ab7ac4a4d41b4d07360c2c51c3c509e6d8d7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 20/39] fix: generated DL1 config enabled columns that are
 disabled by default

The chain only activates columns which are listed as such, so an unedited
config file changed the contents of the DL1 file.
---
 CHECLabPy/scripts/generate_dl1_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/generate_dl1_config.py b/CHECLabPy/scripts/generate_dl1_config.py
index a24c3a3..05c928c 100644
--- a/CHECLabPy/scripts/generate_dl1_config.py
+++ b/CHECLabPy/scripts/generate_dl1_config.py
@@ -39,7 +39,7 @@ def main():
                 doc = re.sub(r'(\n\s*)', '\n#  ', doc).strip()[:-1]
                 f.writelines(doc)
             for c in r.columns:
-                f.writelines("{}: {}\n".format(c, default.get(c, True)))
+                f.writelines("{}: {}\n".format(c, default.get(c, False)))
                 doc = column.registry[c].__doc__
                 if doc and not bare:
                     doc = re.sub(r'(\n\s*)', '\n#    ', doc).strip()[:-1]
-- 
2.43.0


From b99bc6ef7cec77a2e31f5dc6f0858314b8bb777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 21/39] fix: NNLSPulseExtraction could not run with current
 numba and numpy

None of the functions can be compiled: @jit used to fall back to plain Python
and now raises. The pulses per pixel have different lengths, so the array
that holds them must be an object array.
---
 CHECLabPy/waveform_reducers/nnls_pulse_extraction.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py b/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py
index 2b3ef73..385b86a 100644
--- a/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py
+++ b/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py
@@ -3,7 +3,6 @@ from CHECLabPy.data import get_file
 import numpy as np
 from scipy import interpolate
 from scipy.optimize import nnls
-from numba import jit
 import scipy
 
 
@@ -74,7 +73,6 @@ class NNLSPulseExtraction(WaveformReducer):
         norm = scipy.integrate.quad(pulse_template,0,36*1e-9)
         return pulse_template,norm
         
-    @jit()
     def _pulse_extraction(self, waveforms):
         px_c = list()
         for i, wf in enumerate(waveforms):
@@ -94,9 +92,8 @@ class NNLSPulseExtraction(WaveformReducer):
 
             px_c.append((ptime,pcharge,evt))  
         
-        return np.array(px_c)
+        return np.array(px_c, dtype=object)
     
-    @jit()
     def _merge_pulses(self, charges,times,binwidth=2.e-9):
         if len(charges) == 0:
             return times,charges
@@ -187,7 +184,6 @@ class NNLSPulseExtraction(WaveformReducer):
         return self.errata
 
 
-@jit()
 def nnls(A,b,maxit=None,tolerance=0):
     """A mockup of the Lawson/Hanson active set algorithm
    
-- 
2.43.0


From 438f10fd6205cfa690a394c0c6d03ac5fbee0837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 22/39] fix: extract_spe stored the shape of the charges as the
 number of pixels

---
 CHECLabPy/scripts/extract_spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index 92dec9f..fa08eff 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -170,7 +170,7 @@ def main():
             files=input_paths,
             fitter=fitter.__class__.__name__,
             n_illuminations=n_illuminations,
-            n_pixels=charges[0].shape,
+            n_pixels=charges[0].shape[1],
             initial=initial,
         )
 
-- 
2.43.0


From c30fe49dc8cc138171d12dcf3a9820b2c74c86df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 23/39] fix: saturation_sum took the flag of the t_event column
 as the extraction time

---
 CHECLabPy/waveform_reducers/saturation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/saturation.py b/CHECLabPy/waveform_reducers/saturation.py
index 188413e..57cf799 100644
--- a/CHECLabPy/waveform_reducers/saturation.py
+++ b/CHECLabPy/waveform_reducers/saturation.py
@@ -18,9 +18,9 @@ class Saturation(WaveformReducer):
         Sum of the waveform samples from the start of the pulse to the end of
         the waveform.
         """
-        if "t_event" in self.kwargs:
-            t_event = self.kwargs['t_event']
-        else:
+        t_event = self.kwargs.get("t_event", None)
+        # A bool is the activation flag of the Timing column called t_event
+        if t_event is None or isinstance(t_event, bool):
             avg = np.mean(self.waveforms, axis=0)
             t_event = np.argmax(avg)
             n_samples = self.waveforms.shape[1]
-- 
2.43.0


From d6fa63f218bddd8fb10410e15dec9f226c0ac5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 24/39] fix: Timing read samples from outside of the waveform

---
 CHECLabPy/waveform_reducers/timing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index ec6019c..a4bd038 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -28,6 +28,10 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
         #######################
         peakpos = np.argmax(wf[window_start:window_end]) + window_start
 
+        # No interpolation possible at the edges of the readout
+        if not 0 < peakpos < n_samples - 1:
+            continue
+
         y0 = wf[peakpos - 1]
         y1 = wf[peakpos]
         y2 = wf[peakpos + 1]
@@ -43,7 +47,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
         t_pulse = t + peakpos
         if not 0 <= t_pulse < n_samples:
             continue
-        i_pulse = int(np.round(t_pulse))
+        i_pulse = min(int(np.round(t_pulse)), n_samples - 1)
 
         ###############################
         # __Obtain FWHM and Rise Time__
-- 
2.43.0


From 147308d550c7212c6f77ce57dfcbbf4e105e1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:08 +0000
Subject: [PATCH 25/39] fix: Timing divided by zero for samples exactly at a
 threshold

---
 CHECLabPy/waveform_reducers/timing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index a4bd038..307b185 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -66,7 +66,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi + 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi > yj:
                 fwhm_r = xi + (half_max - yi) * (xj - xi) / (yj - yi)
                 break
 
@@ -75,13 +75,13 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi - 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi > yj:
                 if not fwhm_l:  # Only set on first time
                     fwhm_l = xi + (half_max - yi) * (xj - xi) / (yj - yi)
-            if yi >= _90percent >= yj:
+            if yi >= _90percent >= yj and yi > yj:
                 if not rt_90:  # Only set on first time
                     rt_90 = xi + (_90percent - yi) * (xj - xi) / (yj - yi)
-            if yi >= _10percent >= yj:
+            if yi >= _10percent >= yj and yi > yj:
                 if not rt_10:  # Only set on first time
                     rt_10 = xi + (_10percent - yi) * (xj - xi) / (yj - yi)
             if fwhm_l and rt_90 and rt_10:
-- 
2.43.0


From 5fd1098057eff8d2a47c0cbdb5deb76a8f6d3d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:08 +0000
Subject: [PATCH 26/39] fix: DL1Writer chose the type of float columns by the
 values of each flush

---
 CHECLabPy/scripts/extract_dl1.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index 737c133..b4e2151 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -16,9 +16,8 @@ from CHECLabPy.calib import TimeCalibrator
 class DL1Writer(HDF5Writer):
     @staticmethod
     def _prepare_before_append(df):
-        df_float = df.select_dtypes(
-            include=['float']
-        ).apply(pd.to_numeric, downcast='float')
+        # Same type whatever the values, as required for the later appends
+        df_float = df.select_dtypes(include=['float']).astype(np.float32)
         df[df_float.columns] = df_float
         df['iev'] = df['iev'].astype(np.uint32)
         if 'first_cell_id' in df.columns:
-- 
2.43.0


From 515f8dcec31c49e54d28271b06db5dd2e5438e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:08 +0000
Subject: [PATCH 27/39] fix: extract_dl1 overwrote input files with an unusual
 extension

---
 CHECLabPy/scripts/extract_dl1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index b4e2151..875c10e 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -38,6 +38,8 @@ class DL1Writer(HDF5Writer):
                                                                      '.h5')
             if reader.is_mc:
                 output_path = reader.path.replace('.simtel.gz', '_dl1.h5')
+            if output_path == reader.path:  # Never overwrite the input file
+                output_path += '_dl1.h5'
 
         with cls(output_path) as writer:
             n_events_processed = 0
-- 
2.43.0


From 88d1a77bfc0012227f637b525abde1f7e7321f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 28/39] fix: poisson probability was NaN for a mean of zero

---
 CHECLabPy/stats/pdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/stats/pdf.py b/CHECLabPy/stats/pdf.py
index dcb653c..2a9c431 100644
--- a/CHECLabPy/stats/pdf.py
+++ b/CHECLabPy/stats/pdf.py
@@ -29,6 +29,8 @@ def poisson(k, mu):
 
     Source: https://en.wikipedia.org/wiki/Poisson_distribution
     """
+    if mu == 0:
+        return 1 if k == 0 else 0
     return exp(k * log(mu) - mu - lgamma(k + 1))
 
 
-- 
2.43.0


From 20b75a268ebac6034b87aadc4ba82040fd652de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 29/39] fix: charge statistics overflowed or lost precision for
 narrow types

---
 CHECLabPy/utils/resolutions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/resolutions.py b/CHECLabPy/utils/resolutions.py
index 6495828..8fb408a 100644
--- a/CHECLabPy/utils/resolutions.py
+++ b/CHECLabPy/utils/resolutions.py
@@ -69,7 +69,7 @@ class ChargeResolution:
         measured : ndarray
             1D array containing the measured charge for each entry
         """
-        diff2 = np.power(measured - true, 2)
+        diff2 = np.power(np.subtract(measured, true, dtype=np.float64), 2)
         df = pd.DataFrame(dict(
             pixel=pixel,
             true=true,
@@ -172,6 +172,7 @@ class ChargeStatistics:
         charge : ndarray
             1D array containing the measured charge for each entry
         """
+        charge = np.asarray(charge, dtype=np.float64)
         df = pd.DataFrame(dict(
             pixel=pixel,
             amplitude=amplitude,
-- 
2.43.0


From 93ccedaacc193145e1b9e433c46c4c0ac43f2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 30/39] fix: get_row_column failed for cameras that are not
 square

---
 CHECLabPy/utils/mapping.py | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index 9ca40f3..f05e6e4 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -192,32 +192,18 @@ def get_row_column(pix_x, pix_y):
     column : ndarray
         Column for each camera pixel
     """
-    # Estimate the maximum number of rows and columns of pixels
+    # Pixels in the same row (or column) are closer than half the pixel pitch
     dist = np.min(np.sqrt((pix_x - pix_x[0]) ** 2 + (pix_y - pix_y[0]) ** 2)[1:])
-    max_nrow = int(np.ceil((pix_y.max() - pix_y.min()) / dist)) + 1
-    max_ncol = int(np.ceil((pix_x.max() - pix_x.min()) / dist)) + 1
-
-    # Bin the pixel positions on a 2D grid
-    hist_x = np.histogram2d(pix_x, pix_y, weights=pix_x, bins=[max_ncol, max_nrow])[0]
-    hist_y = np.histogram2d(pix_x, pix_y, weights=pix_y, bins=[max_ncol, max_nrow])[0]
-    hist_xc = np.histogram2d(pix_x, pix_y, bins=[max_ncol, max_nrow])[0]
-    hist_yc = np.histogram2d(pix_x, pix_y, bins=[max_ncol, max_nrow])[0]
-    # Find row and col with a complete number of pixels along them
-    full_col = np.bincount(hist_x.nonzero()[0]).argmax()
-    full_row = np.bincount(hist_y.nonzero()[0]).argmax()
-    # Obtain coordinates of the pixels along this row and column
-    full_x = hist_x[:, full_col][hist_xc[:, full_col].nonzero()]
-    full_y = hist_y[full_row, :][hist_yc[full_row, :].nonzero()]
-
-    # Define pixel bin edges based on full row and column of pixels
-    mid_dist = np.min(
-        np.sqrt((full_x - full_x[0]) ** 2 + (full_y - full_y[0]) ** 2)[1:]
-    ) / 2
-    edges_x = np.array([*(full_x - mid_dist), full_x[-1] + mid_dist])
-    edges_y = np.array([*(full_y - mid_dist), full_y[-1] + mid_dist])
-
-    # Obtain the corresponding row and column bin for each pixel
-    column = np.digitize(pix_x, edges_x) - 1
-    row = np.digitize(pix_y, edges_y) - 1
+
+    def number(position):
+        order = np.argsort(position)
+        step = np.diff(position[order]) > dist / 2
+        index = np.zeros(position.size, dtype=int)
+        index[order[1:]] = np.cumsum(step)
+        return index
+
+    # Number the distinct positions along each axis
+    row = number(pix_y)
+    column = number(pix_x)
 
     return row, column
-- 
2.43.0


From b42ef9368691c7e7f8045f05e2b748c880241372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 31/39] fix: highlight_pixels drew nothing for images of
 integers

The line widths took the type of the image, so the default width of 0.5
became 0 for integer images, and no image at all raised an IndexError.
---
 CHECLabPy/plotting/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index b6f8d9d..3f64016 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -209,7 +209,7 @@ class CameraImage(Plotter):
             The transparency
         """
 
-        lw_array = np.zeros_like(self.image)
+        lw_array = np.zeros(self.n_pixels)
         lw_array[pixels] = linewidth
         pixel_highlighting = copy(self.pixels)
         pixel_highlighting.set_facecolor('none')
-- 
2.43.0


From 0cd54942fe71501e2fbab50ed863bbea3503f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 32/39] fix: resolution plots read a column that
 ChargeResolution does not give

plot_pixel and plot_camera raised KeyError: 'rmse' for every store made
from the tables of ChargeResolution, whose column is charge_resolution.
---
 CHECLabPy/plotting/resolutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/plotting/resolutions.py b/CHECLabPy/plotting/resolutions.py
index 3584104..e943939 100644
--- a/CHECLabPy/plotting/resolutions.py
+++ b/CHECLabPy/plotting/resolutions.py
@@ -44,7 +44,7 @@ class ChargeResolutionPlotter(Plotter):
     def plot_pixel(self, pixel, label=''):
         df_pixel = self.df_pixel.loc[self.df_pixel['pixel'] == pixel]
         x = df_pixel['true']
-        y = df_pixel['rmse']
+        y = df_pixel['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
@@ -53,7 +53,7 @@ class ChargeResolutionPlotter(Plotter):
 
     def plot_camera(self, label=''):
         x = self.df_camera['true']
-        y = self.df_camera['rmse']
+        y = self.df_camera['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
-- 
2.43.0


From 5b9857721695ebb85106f794d563f01da158a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 33/39] fix: extraction windows that start before the readout

---
 CHECLabPy/waveform_reducers/average_wf.py | 2 ++
 CHECLabPy/waveform_reducers/saturation.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/waveform_reducers/average_wf.py b/CHECLabPy/waveform_reducers/average_wf.py
index ee758f7..c136d93 100644
--- a/CHECLabPy/waveform_reducers/average_wf.py
+++ b/CHECLabPy/waveform_reducers/average_wf.py
@@ -42,6 +42,8 @@ class AverageWF(WaveformReducer):
         """
         start = self.t - self.window_shift
         end = start + self.window_size
+        # A negative index would count from the end of the readout
+        start, end = max(start, 0), max(end, 0)
 
         charge = np.sum(self.waveforms[:, start:end], axis=1)
         return charge
diff --git a/CHECLabPy/waveform_reducers/saturation.py b/CHECLabPy/waveform_reducers/saturation.py
index 57cf799..cb5fd3b 100644
--- a/CHECLabPy/waveform_reducers/saturation.py
+++ b/CHECLabPy/waveform_reducers/saturation.py
@@ -28,7 +28,8 @@ class Saturation(WaveformReducer):
                 t_event = 10
             elif t_event > n_samples - 10:
                 t_event = n_samples - 10
-        start = t_event - self.window_shift
+        # A negative index would count from the end of the readout
+        start = max(t_event - self.window_shift, 0)
 
         coeff = np.sum(self.waveforms[:, start:], axis=1)
         return coeff
-- 
2.43.0


From 2ba526683f2fdaeeba64cbf1171ea61467efec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 34/39] fix: generated DL1 configuration with one-line
 docstrings

---
 CHECLabPy/scripts/generate_dl1_config.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/CHECLabPy/scripts/generate_dl1_config.py b/CHECLabPy/scripts/generate_dl1_config.py
index 05c928c..fc2d106 100644
--- a/CHECLabPy/scripts/generate_dl1_config.py
+++ b/CHECLabPy/scripts/generate_dl1_config.py
@@ -8,12 +8,16 @@ from CHECLabPy.core.reducer import column, WaveformReducer
 from CHECLabPy.core.chain import WaveformReducerChain
 from CHECLabPy.core import child_subclasses
 from CHECLabPy.data import get_file
-import re
 import argparse
 import os
 from argparse import ArgumentDefaultsHelpFormatter as Formatter
 
 
+def as_comment(doc, prefix):
+    lines = [line.strip() for line in doc.splitlines()]
+    return ["{}{}\n".format(prefix, line) for line in lines if line]
+
+
 def main():
     description = ('Create a yaml config file for use with extract_dl1.py '
                    'to configure the WaveformReducers')
@@ -36,14 +40,12 @@ def main():
             f.writelines("# {}\n".format(r.__name__))
             doc = r.__doc__
             if doc and not bare:
-                doc = re.sub(r'(\n\s*)', '\n#  ', doc).strip()[:-1]
-                f.writelines(doc)
+                f.writelines(as_comment(doc, "#  "))
             for c in r.columns:
                 f.writelines("{}: {}\n".format(c, default.get(c, False)))
                 doc = column.registry[c].__doc__
                 if doc and not bare:
-                    doc = re.sub(r'(\n\s*)', '\n#    ', doc).strip()[:-1]
-                    f.writelines(doc)
+                    f.writelines(as_comment(doc, "#    "))
             f.writelines("\n")
 
     print("Config file created: {}".format(output_path))
-- 
2.43.0


From e15219b5f1983c409a3f7fbac699c4ecc969e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 35/39] fix: ROOT conversion of header times that are not in
 nanoseconds

---
 CHECLabPy/scripts/convert_hd52root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/convert_hd52root.py b/CHECLabPy/scripts/convert_hd52root.py
index 9239f95..d1f6be5 100644
--- a/CHECLabPy/scripts/convert_hd52root.py
+++ b/CHECLabPy/scripts/convert_hd52root.py
@@ -78,7 +78,7 @@ if __name__ == "__main__":
     for key in meta:
         print ("\t%s = %s (type=%s)" % (key, str(meta[key]), type(meta[key])))
         if type(meta[key]) == pd._libs.tslib.Timestamp:
-            meta[key] = meta[key].asm8.view(np.int64)
+            meta[key] = meta[key].value  # nanoseconds, whatever the resolution
             print("\tTimestamp found, converting to uint64: \t%s = %s (type=%s)" % (key, str(meta[key]), type(meta[key])))
 
     print ("--> Found the following data columns:")
-- 
2.43.0


From 2c8120df0c11d4cc4c0c10b6628b97d6f8da230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 36/39] fix: keep a copy of the dataframes that wait to be
 written

HDF5Writer.append kept a reference to the dataframe until the next flush,
so that a dataframe filled anew for each event was stored with the values
it had in the end.
---
 CHECLabPy/core/io/hdf5_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/hdf5_writer.py b/CHECLabPy/core/io/hdf5_writer.py
index 2383f28..eb15d9a 100644
--- a/CHECLabPy/core/io/hdf5_writer.py
+++ b/CHECLabPy/core/io/hdf5_writer.py
@@ -98,7 +98,7 @@ class HDF5Writer:
             Not required, but can speed up the file filling/generation
         """
         self.keys.add(key)
-        self.df_list[key].append(df)
+        self.df_list[key].append(df.copy())
         memory_usage = df.memory_usage(index=True, deep=True).sum()
         self.df_list_n_bytes[key] += memory_usage
         if self.df_list_n_bytes[key] >= 0.5E9:
-- 
2.43.0


From fc1114b0e8ea4372c8088a142d88b14e517cfd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 37/39] fix: files shorter than the format markers belong to no
 reader

---
 CHECLabPy/core/io/simtel.py | 4 +++-
 CHECLabPy/core/io/tio.py    | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/core/io/simtel.py b/CHECLabPy/core/io/simtel.py
index dd8e3dd..2d12923 100644
--- a/CHECLabPy/core/io/simtel.py
+++ b/CHECLabPy/core/io/simtel.py
@@ -109,11 +109,13 @@ class SimtelReader(WaveformReader):
             marker_bytes = f.read(4)
 
         # if file is gzip, read the first 4 bytes with gzip again
-        if marker_bytes[0] == 0x1f and marker_bytes[1] == 0x8b:
+        if marker_bytes[:2] == b'\x1f\x8b':
             with gzip.open(path, 'rb') as f:
                 marker_bytes = f.read(4)
 
         # check for the simtel magic marker
+        if len(marker_bytes) < 4:
+            return False
         int_marker, = struct.unpack('I', marker_bytes)
         return int_marker == 3558836791 or int_marker == 931798996
 
diff --git a/CHECLabPy/core/io/tio.py b/CHECLabPy/core/io/tio.py
index 97156f1..fb2668b 100644
--- a/CHECLabPy/core/io/tio.py
+++ b/CHECLabPy/core/io/tio.py
@@ -98,7 +98,7 @@ class TIOReader(WaveformReader):
             marker_bytes = f.read(1024)
 
         # if file is gzip, read the first 4 bytes with gzip again
-        if marker_bytes[0] == 0x1f and marker_bytes[1] == 0x8b:
+        if marker_bytes[:2] == b'\x1f\x8b':
             with gzip.open(path, 'rb') as f:
                 marker_bytes = f.read(1024)
 
-- 
2.43.0


From 23e53f6203ea6a9a17a9af4ff60003fea3ff0434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 38/39] fix: amplitude matching does not alternate for ever
 between two equally good DAC values

---
 CHECLabPy/calib/amplitude_matcher.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index 578c09f..4ce8be8 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -126,6 +126,13 @@ class AmplitudeMatcher:
             elif stage[isp] == STAGE.STEP1:
                 next_dac[isp] += 1 * direction[isp]
 
+            if iteration > 0 and next_dac[isp] == previous_dac[isp] \
+                    and distance[isp] == previous_distance[isp]:
+                # Do not alternate between two equally good values forever
+                next_dac[isp] = dac[isp]
+                stage[isp] += 1
+                continue
+
             if next_dac[isp] > 255:
                 next_dac[isp] = 255
                 stage[isp] = STAGE.FINISH
-- 
2.43.0


From 1e6314acf331512c28fccfe7f6bdd43c0d7326c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 39/39] fix: reading metadata gives copies, so that changing
 them does not alter later reads

---
 CHECLabPy/core/io/dl1_reader.py  | 6 +++++-
 CHECLabPy/core/io/hdf5_reader.py | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/core/io/dl1_reader.py b/CHECLabPy/core/io/dl1_reader.py
index 34c3a66..df9ad96 100644
--- a/CHECLabPy/core/io/dl1_reader.py
+++ b/CHECLabPy/core/io/dl1_reader.py
@@ -2,6 +2,7 @@ import numpy as np
 import pandas as pd
 import warnings
 import json
+from copy import deepcopy
 from CHECLabPy.core.io.hdf5_reader import HDF5Reader
 
 
@@ -296,7 +297,10 @@ class DeprecatedMonitorReader:
 
     @property
     def metadata(self):
-        return self.store.get_storer("monitor_metadata").attrs.metadata
+        # The attributes are cached, they must not follow user changes
+        return deepcopy(
+            self.store.get_storer("monitor_metadata").attrs.metadata
+        )
 
     @property
     def columns_camera(self):
diff --git a/CHECLabPy/core/io/hdf5_reader.py b/CHECLabPy/core/io/hdf5_reader.py
index e804f11..c482217 100644
--- a/CHECLabPy/core/io/hdf5_reader.py
+++ b/CHECLabPy/core/io/hdf5_reader.py
@@ -4,6 +4,7 @@ import os
 from CHECLabPy import __version__
 from packaging.version import parse
 from collections import defaultdict
+from copy import deepcopy
 
 
 class HDF5Reader:
@@ -126,7 +127,10 @@ class HDF5Reader:
         mapping = self.store['mapping']
         with warnings.catch_warnings():
             warnings.simplefilter('ignore', UserWarning)
-            mapping.metadata = self.store.get_storer('mapping').attrs.metadata
+            # The attributes are cached, they must not follow user changes
+            mapping.metadata = deepcopy(
+                self.store.get_storer('mapping').attrs.metadata
+            )
         return mapping
 
     def get_metadata(self, key='data', name='metadata'):
@@ -154,7 +158,8 @@ class HDF5Reader:
                    "Available names for key: {}"
                    .format(key, name, self.metadata_keys[key]))
             raise KeyError(msg)
-        return getattr(self.store.get_storer(key).attrs, name)
+        # The attributes are cached, they must not follow user changes
+        return deepcopy(getattr(self.store.get_storer(key).attrs, name))
 
     def get_n_rows(self, key):
         """
-- 
2.43.0

