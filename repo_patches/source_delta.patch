From f377da7c7fc25ab5cec25957c5fe7f5225873eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:49 +0000
Subject: [PATCH 001/113] fix: take slices of symmetric axes among all periods
 and only once

---
 SciDataTool/Methods/DataND/_extract_slices.py |  8 ++++++++
 SciDataTool/Methods/DataND/_get_field.py      |  8 --------
 .../Methods/DataND/_rebuild_symmetries.py     | 19 ++++++++++++-------
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_extract_slices.py b/SciDataTool/Methods/DataND/_extract_slices.py
index 8311ad1..5750f85 100644
--- a/SciDataTool/Methods/DataND/_extract_slices.py
+++ b/SciDataTool/Methods/DataND/_extract_slices.py
@@ -1,5 +1,7 @@
 from numpy import take
 
+from SciDataTool.Functions.symmetries import rebuild_symmetries
+
 
 def _extract_slices(self, values, axes_list):
     """Returns the values of the field (with symmetries and transformations).
@@ -29,6 +31,12 @@ def _extract_slices(self, values, axes_list):
                     axis_requested.indices is not None
                     and axis_requested.transform != "fft"
                 ):
+                    if any(
+                        i < 0 or i >= values.shape[index]
+                        for i in axis_requested.indices
+                    ):
+                        # Requested indices are among other periods
+                        values = rebuild_symmetries(values, index, axis.symmetries)
                     values = take(values, axis_requested.indices, axis=index)
         if not is_match:  # Axis was not specified -> take slice at the first value
             axes_dict_other[axis.name] = [axis.get_values()[0], axis.unit]
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 95c5969..2e6d8cc 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -37,7 +37,6 @@ def _get_field(self, axes_list):
                 "antiderivate",
             ]
             or axis_requested.indices not in [None, []]
-            and max(axis_requested.indices) >= values.shape[axis_requested.index]
         ):
             # DataPattern case where all values are requested
             values = take(values, axis_requested.rebuild_indices, axis_requested.index)
@@ -47,12 +46,5 @@ def _get_field(self, axes_list):
             axis_symmetries["antiperiod"] = 2
             values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
             axis_symmetries["antiperiod"] = nper
-        elif (
-            axis_requested.indices is not None
-            and max(axis_requested.indices) > values.shape[axis_requested.index]
-        ):
-            # Slicing case where requested indices are among other periods
-            values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            self.axes[axis_requested.index].symmetries = dict()
 
     return values
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 4a16f4f..ad47888 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -46,13 +46,18 @@ def _rebuild_symmetries(
             )
         ):
             values = take(values, axis.rebuild_indices, axis.index)
-        elif axis.transform != "fft" and axis.extension in [
-            "whole",
-            "interval",
-            "oneperiod",
-            "antiperiod",
-            "smallestperiod",
-        ]:
+        elif (
+            axis.transform != "fft"
+            and axis.indices is None  # slices have already been extracted
+            and axis.extension
+            in [
+                "whole",
+                "interval",
+                "oneperiod",
+                "antiperiod",
+                "smallestperiod",
+            ]
+        ):
             if axis.extension == "smallestperiod":
                 is_smallestperiod = True
                 is_oneperiod = False
-- 
2.43.0


From a51bb55343889a605d94a44ec08cfc1af810b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:13 +0000
Subject: [PATCH 002/113] fix: accept 64-bit numpy integers as attribute values

---
 SciDataTool/Classes/_check.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index 1e9389f..21bff7d 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -1,4 +1,4 @@
-from numpy import array, empty, int32, squeeze, expand_dims
+from numpy import array, empty, int32, int64, squeeze, expand_dims
 
 
 def set_array(obj, prop, value):
@@ -108,7 +108,7 @@ def check_type(var_name, value, expect_type, type_value):
     """
     if expect_type == "float":  # float variable can take int value
         if not (
-            (isinstance(value, int32) and not isinstance(value, bool))
+            (isinstance(value, (int32, int64)) and not isinstance(value, bool))
             or (isinstance(value, int) and not isinstance(value, bool))
             or isinstance(value, float)
         ):
@@ -140,7 +140,7 @@ def check_type(var_name, value, expect_type, type_value):
             raise CheckTypeError(
                 "For " + var_name + " : Integer expected, " + type_value + " given"
             )
-    elif expect_type == "int" and type_value == "int32":
+    elif expect_type == "int" and type_value in ["int32", "int64"]:
         if value % 1 != 0:  # If not an Integer
             raise CheckTypeError(
                 "For " + var_name + " : Integer expected, " + type_value + " given"
@@ -262,7 +262,7 @@ def check_min(var_name, value, type_value, Vmin):
     """
     # Work only for number and matrix
     msg = "Check : You can't specify the min of variable of type " + type_value
-    assert type_value in ["ndarray", "int", "long", "float", "int32"], msg
+    assert type_value in ["ndarray", "int", "long", "float", "int32", "int64"], msg
     # For number
     if (isinstance(value, int) or isinstance(value, float)) and value < Vmin:
         raise CheckMinError(
@@ -302,7 +302,7 @@ def check_max(var_name, value, type_value, Vmax):
     """
     # Work only for number and matrix
     msg = "Check : You can't specify the max of variable of type " + type_value
-    assert type_value in ["ndarray", "int", "long", "float", "int32"], msg
+    assert type_value in ["ndarray", "int", "long", "float", "int32", "int64"], msg
     # For number
     if (isinstance(value, int) or isinstance(value, float)) and value > Vmax:
         raise CheckMaxError(
-- 
2.43.0


From 374e6b039f43dda588a60f9453fa09012a139aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:34 +0000
Subject: [PATCH 003/113] fix: rebuild loaded objects from the classes of this
 package

---
 SciDataTool/Functions/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/load.py b/SciDataTool/Functions/load.py
index d79d61a..523a12b 100644
--- a/SciDataTool/Functions/load.py
+++ b/SciDataTool/Functions/load.py
@@ -44,7 +44,7 @@ def init_data(obj, file_path):
         # Check if the dictionay has a "__class__" key
         if "__class__" in obj:
             # Check if data is a pyleecan class
-            class_obj = import_class("pyleecan.Classes", obj.get("__class__"), "")
+            class_obj = import_class("SciDataTool.Classes", obj.get("__class__"), "")
             if folder_path != "":
                 wd = getcwd()
                 chdir(folder_path)
-- 
2.43.0


From 707f799839f33ef61c48d72855dbb8468a053f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:40 +0000
Subject: [PATCH 004/113] fix: derivate periodic fields on axes that do not
 start at zero

---
 SciDataTool/Functions/derivation_integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index b8c4f39..98d8dee 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -311,7 +311,7 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # Create the full vector of axis values
                 ax_full = np.concatenate(
                     (
-                        np.array([ax_val[0] - ax_val[1]]),
+                        np.array([2 * ax_val[0] - ax_val[1]]),
                         ax_val,
                         np.array([ax_val[-1] + ax_val[1] - ax_val[0]]),
                     )
-- 
2.43.0


From 513da9f120f05d32b69ff9d16c4c10bb42943962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:44 +0000
Subject: [PATCH 005/113] fix: antiderivate anti-periodic and non-periodic
 fields

---
 .../Functions/derivation_integration.py        | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 98d8dee..1f04675 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -64,14 +64,18 @@ def antiderivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # in case of periodicity (respectively anti-periodicity)
                 values_full[-1, ...] = (-1) ** int(is_aper) * values[0, ...]
             # Anti-derivate along axis
-            values = np.roll(
-                scp_int.cumulative_trapezoid(values_full, x=ax_full, axis=0),
-                shift=1,
-                axis=0,
+            values_int = scp_int.cumulative_trapezoid(
+                values_full, x=ax_full, axis=0, initial=0
             )
-            # Integration constant is given by removing average value
-            values = values - np.mean(values, axis=0)
-            # Get N first values and swap axes back to origin
+            # Get N first values
+            values = values_int[: ax_val.size, ...]
+            if is_aper:
+                # Integration constant is given by anti-periodicity
+                values = values - values_int[-1, ...] / 2
+            else:
+                # Integration constant is given by removing average value
+                values = values - np.mean(values, axis=0)
+            # Swap axes back to origin
             values = np.swapaxes(values, 0, index)
 
         else:
-- 
2.43.0


From b931a6d9c69d90a4932e637bbe2b806b9352fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:18 +0000
Subject: [PATCH 006/113] fix: reductions along several axes and along
 anti-periodic or spectral axes

---
 .../Functions/derivation_integration.py       |  4 ++--
 SciDataTool/Functions/sum_mean.py             | 17 ++++++---------
 .../Methods/DataND/_apply_operations.py       | 21 +++++++++++++------
 3 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 1f04675..e62153f 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -227,8 +227,8 @@ def integrate(values, ax_val, index, Nper, is_aper, is_phys, is_mean=False):
         shape = list(values.shape)
         if is_aper:
             # Integration of anti-periodic signal yields zero
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
             # Swap axis to always have integration axis on 1st position
             values = np.swapaxes(values, index, 0)
diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index f84c518..d485bd7 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -27,8 +27,8 @@ def my_sum(values, index, Nper, is_aper, unit, is_fft, corr_unit="SI"):
     if is_aper:
         # Sum of anti-periodic signal yields zero
         shape = list(values.shape)
-        shape0 = [s for ii, s in enumerate(shape) if ii != index]
-        values = np.zeros(shape0, dtype=values.dtype)
+        shape[index] = 1
+        values = np.zeros(shape, dtype=values.dtype)
     else:
         # To sum dB or dBA
         if "dB" in unit:
@@ -86,16 +86,11 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
         if is_aper:
             # Average of anti-periodic signal yields zero
             shape = list(values.shape)
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
-            if is_fft:  # No need to multiply by Nper in fft case
-                Nper = 1
-            # Take mean value multiplied by periodicity
-            if Nper is None:
-                # Set Nper to 1 in case of non-periodic axis
-                Nper = 1
-            values = Nper * np.nanmean(values, axis=index)
+            # Mean value is the same on one period and on the whole axis
+            values = np.nanmean(values, axis=index, keepdims=True)
 
     return values
 
diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 672dfd5..996c898 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -1,4 +1,4 @@
-from numpy import abs as np_abs, nanmax, nanmin
+from numpy import abs as np_abs, concatenate, nanmax, nanmin
 
 from SciDataTool.Functions.derivation_integration import (
     derivate,
@@ -56,14 +56,23 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_fft = True
         else:
             is_fft = False
+        if is_fft:
+            # Symmetries are already accounted for in fft
+            Nper, is_aper = 1, False
+        elif is_magnitude and is_aper:
+            # Magnitude of an anti-periodic field is periodic
+            is_aper = False
+        # Both signs are reached over an anti-periodic axis
+        if is_aper and extension in ["max", "min"]:
+            values = concatenate((values, -values), axis=index)
         # max over max axes
-        if extension in "max":
-            values = nanmax(values, axis=index)
+        if extension == "max":
+            values = nanmax(values, axis=index, keepdims=True)
         # min over max axes
-        elif extension in "min":
-            values = nanmin(values, axis=index)
+        elif extension == "min":
+            values = nanmin(values, axis=index, keepdims=True)
         # sum over sum axes
-        elif extension in "sum":
+        elif extension == "sum":
             values = my_sum(
                 values, index, Nper, is_aper, unit, is_fft, corr_unit=corr_unit
             )
-- 
2.43.0


From 62e6acec227c4591b3dc0a3f2816f0f94587ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:33 +0000
Subject: [PATCH 007/113] fix: frequency content when axes before the time axis
 are not requested

---
 SciDataTool/Functions/fft_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 32239cf..47a4e72 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -289,10 +289,11 @@ def comp_fftn(values, axes_list, is_real=True):
         if is_onereal:
             values_FT = rfftn(values, axes=axes)
             # Do not multiply constant component by 2 (f=0)
-            if axes_list[axes[-1]].corr_values is not None:
-                freqs = axes_list[axes[-1]].corr_values
+            axis_real = [axis for axis in axes_list if axis.index == axes[-1]][0]
+            if axis_real.corr_values is not None:
+                freqs = axis_real.corr_values
             else:
-                freqs = axes_list[axes[-1]].values
+                freqs = axis_real.values
             if freqs[0] == 0:
                 slice_0 = take(values_FT, 0, axis=axes[-1])
                 slice_0 *= 0.5
-- 
2.43.0


From 30fa9966c88942e8f73ce692bd440294d4251104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:27 +0000
Subject: [PATCH 008/113] fix: axes, symmetries and units of extracted data
 objects

---
 SciDataTool/Methods/DataND/get_data_along.py | 41 +++++++++++++-------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index cfb4e2f..8c2c3ea 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -33,9 +33,11 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     values = results.pop(self.symbol)
     del results["axes_dict_other"]
     axes_list = results.pop("axes_list")
+    # Put axes in the same order as the dimensions of values
+    axes_list = sorted(axes_list, key=lambda axis: axis.index)
     Axes = []
 
-    axes_name_new = list(results.keys())
+    axes_name_new = [axis.name for axis in axes_list]
     if "time" in axes_name_new:
         Data_type = "DataTime"
     elif "freqs" in axes_name_new:
@@ -47,7 +49,8 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     module = __import__("SciDataTool.Classes." + Data_type, fromlist=[Data_type])
     DataClass = getattr(module, Data_type)
 
-    for axis_name in axes_name_new:
+    for axis_requested in axes_list:
+        axis_name = axis_requested.name
         if not isinstance(results[axis_name], str):
             for i, axis in enumerate(self.axes):
                 if axis.name == axis_name:
@@ -70,16 +73,20 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                         is_components = axis.is_components
                         axis_values = results[axis_name]
                         ax_unit = rev_axes_dict[axis_name][2]
-            # Update symmetries
+            # Update axis unit if a conversion was requested
             if (
-                "smallestperiod" in args[index]
-                or args[index]
-                in [
-                    "freqs",
-                    "wavenumber",
-                ]
-                or "antiderivate" in args[index]
-                or "derivate" in args[index]
+                axis_requested.unit != "SI"
+                and axis_requested.unit not in self.axes[index].normalizations
+            ):
+                ax_unit = axis_requested.unit
+            # Update symmetries
+            if axis_requested.extension in [
+                "smallestperiod",
+                "derivate",
+                "antiderivate",
+            ] or (
+                axis_requested.name in ["freqs", "wavenumber"]
+                and axis_requested.extension == "whole"
             ):
                 symmetries = self.axes[index].symmetries.copy()
             else:
@@ -89,7 +96,10 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                 unit=ax_unit,
                 values=axis_values,
                 is_components=is_components,
-                normalizations=self.axes[index].normalizations.copy(),
+                normalizations={
+                    key: norm.copy()
+                    for key, norm in self.axes[index].normalizations.items()
+                },
                 symmetries=symmetries,
             ).to_linspace()
             if hasattr(self.axes[index], "sort_indices") and hasattr(
@@ -103,7 +113,8 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         unit = unit
     else:
         # Update unit if derivation or integration
-        unit = self.unit
+        if unit == "SI" or unit in self.normalizations:
+            unit = self.unit
         for axis in axes_list:
             if axis.extension in ["antiderivate", "integrate", "integrate_local"]:
                 unit = get_unit_integrate(unit, axis.corr_unit)
@@ -116,6 +127,8 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         symbol=self.symbol,
         axes=Axes,
         values=values,
-        normalizations=self.normalizations.copy(),
+        normalizations={
+            key: norm.copy() for key, norm in self.normalizations.items()
+        },
         is_real=self.is_real,
     )
-- 
2.43.0


From ea9e14d80741279078dd93d1a588614e6b482985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:52 +0000
Subject: [PATCH 009/113] fix: do not clip the caller's array when converting
 to dB

---
 SciDataTool/Functions/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 25c3cad..8a9d32f 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -283,7 +283,7 @@ def to_dB(values, unit, ref_value=1.0):
     """
     if ref_value != 1:
         if isinstance(values, ndarray):
-            values[values < ref_value] = ref_value
+            values = where(values < ref_value, ref_value, values)
         else:
             if values < ref_value:
                 values = ref_value
-- 
2.43.0


From 4d4daf3bcaa2e909e1e5b9b1bd63b8c852dea8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:57 +0000
Subject: [PATCH 010/113] fix: upper limit of the last octave band

---
 SciDataTool/Functions/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 8a9d32f..fe4030b 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -440,7 +440,7 @@ def to_noct(values, freqs, noct=3):
     f_oct = comp_nthoctave_axis(noct, freqs[0], freqs[-1])
     # Compute sum over each interval
     freqbds = [f / (2 ** (1.0 / (2.0 * noct))) for f in f_oct]
-    freqbds.append(freqbds[-1])
+    freqbds.append(f_oct[-1] * (2 ** (1.0 / (2.0 * noct))))
     # freqbds = [0] + f_oct
     values_oct = []
     N = zeros(len(freqbds) - 1)
-- 
2.43.0


From dfb6b66040775cee6b74991775c86b7bdc7e8d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:39 +0000
Subject: [PATCH 011/113] fix: frequencies of speed/order maps

---
 SciDataTool/Methods/DataND/_get_freqs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_get_freqs.py b/SciDataTool/Methods/DataND/_get_freqs.py
index 71b7437..de63bd2 100644
--- a/SciDataTool/Methods/DataND/_get_freqs.py
+++ b/SciDataTool/Methods/DataND/_get_freqs.py
@@ -27,7 +27,7 @@ def _get_freqs(self):
     elif "frequency" in axis_names:
         index = axis_names.index("frequency")
     elif "time" in axis_names:
-        index = axis_names.index("frequency")
+        index = axis_names.index("time")
         operation = "time_to_freqs"
     elif "speed" in axis_names and "order" in axis_names:
         index_speed = axis_names.index("speed")
@@ -45,7 +45,7 @@ def _get_freqs(self):
 
     if index is not None:
         freqs = self.get_axes()[index].get_values(operation=operation)
-    else:  # f = speed * 60 / order
+    else:  # f = speed * order / 60
         if is_norm:
             normalization = "speed"
         else:
@@ -54,6 +54,6 @@ def _get_freqs(self):
         order_strings = self.get_axes()[index_order].get_values().tolist()
         orders = array([int(s.split(";")[0].replace("H", "")) for s in order_strings])
         os, so = meshgrid(orders, speed)
-        freqs = so * 60 / os
+        freqs = so * os / 60
 
     return freqs
-- 
2.43.0


From b8db8595472298b2c95376ce2a51fd3a6d3d9cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:04 +0000
Subject: [PATCH 012/113] fix: dB and dBA levels along any position, unit and
 normalization of the frequency axis

---
 SciDataTool/Functions/conversions.py          | 32 +++++++++
 SciDataTool/Methods/DataND/_convert.py        | 30 ++++----
 .../Methods/DataND/get_magnitude_along.py     | 69 ++++++++++---------
 3 files changed, 83 insertions(+), 48 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index fe4030b..b287e29 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -296,6 +296,38 @@ def to_dB(values, unit, ref_value=1.0):
     return values_dB
 
 
+def get_physical_freqs(axis_requested, axis, is_real=True):
+    """Returns the frequencies in Hz of a requested frequency axis
+
+    Parameters
+    ----------
+    axis_requested: RequestedAxis
+        Requested frequency axis, possibly in another unit or normalized
+    axis: Data
+        Corresponding axis of the field
+    is_real: bool
+        To indicate if the signal is real
+    Returns
+    -------
+    Vector of frequencies
+    """
+    if axis_requested.unit in ["SI", axis_requested.corr_unit]:
+        return array(axis_requested.values)
+    freqs = axis.get_values(
+        is_oneperiod=axis_requested.transform == "fft",
+        operation=axis_requested.operation,
+        is_real=is_real,
+    )
+    if axis_requested.indices is not None:
+        freqs = freqs[axis_requested.indices]
+    if len(freqs) != len(axis_requested.values):
+        # User-input frequencies
+        freqs = convert(
+            array(axis_requested.values), axis_requested.unit, axis_requested.corr_unit
+        )
+    return freqs
+
+
 def to_dBA(values, freqs, unit, ref_value=1.0):
     """Converts values into dBA (requires frequency vector)
 
diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index dfbb73e..85f2d56 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -1,7 +1,12 @@
 import numpy as np
 
 from SciDataTool.Functions import NormError, UnitError
-from SciDataTool.Functions.conversions import convert as convert_unit, to_dB, to_dBA
+from SciDataTool.Functions.conversions import (
+    convert as convert_unit,
+    get_physical_freqs,
+    to_dB,
+    to_dBA,
+)
 
 
 def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
@@ -22,9 +27,6 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         values of the field
     """
 
-    if is_squeeze:
-        values = np.squeeze(values)
-
     if unit == self.unit or unit == "SI":
         if is_norm:
             try:
@@ -43,24 +45,19 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         is_match = False
         for axis in axes_list:
             if axis.name == "freqs" or axis.corr_name == "freqs":
-                if axis.corr_values is not None and axis.unit not in [
-                    "SI",
-                    axis.corr_unit,
-                ]:
-                    axis_values = axis.corr_values
-                else:
-                    axis_values = axis.values
                 index = axis.index
+                axis_values = get_physical_freqs(
+                    axis, self.axes[index], self.is_real
+                )
                 values = np.apply_along_axis(
                     to_dBA, index, values, axis_values, self.unit, ref_value
                 )
                 is_match = True
             elif axis.name == "frequency":
-                if axis.corr_values is None:
-                    axis_values = axis.values
-                else:
-                    axis_values = axis.corr_values
                 index = axis.index
+                axis_values = get_physical_freqs(
+                    axis, self.axes[index], self.is_real
+                )
                 values = np.apply_along_axis(
                     to_dBA, index, values, axis_values, self.unit, ref_value
                 )
@@ -85,4 +82,7 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
     else:
         values = convert_unit(values, self.unit, unit)
 
+    if is_squeeze:
+        values = np.squeeze(values)
+
     return values
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 47b9efe..22619e2 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -1,7 +1,13 @@
 from SciDataTool.Functions import AxisError, NormError, UnitError
-from SciDataTool.Functions.conversions import convert, to_dB, to_dBA, to_noct
+from SciDataTool.Functions.conversions import (
+    convert,
+    get_physical_freqs,
+    to_dB,
+    to_dBA,
+    to_noct,
+)
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
-from numpy import apply_along_axis, add, take
+from numpy import apply_along_axis, add, moveaxis, squeeze, take
 
 
 def get_magnitude_along(
@@ -50,9 +56,9 @@ def get_magnitude_along(
                 freq_name = axis.name
         if freq_name is not None:
             for i, arg in enumerate(args):
-                if freq_name in arg:
-                    if "sum" in arg or "rss" in arg:
-                        new_args[i] = freq_name
+                for name in args_freqs:
+                    if name in arg and ("sum" in arg or "rss" in arg):
+                        new_args[i] = name
                         index_freq = i
             if index_freq is None:  # No sum on freqs axis -> can extract directly
                 return self.get_magnitude_along(
@@ -67,7 +73,12 @@ def get_magnitude_along(
                     *new_args, axis_data=axis_data, unit=unit
                 )  # Extract first along freqs axis
                 return data.get_magnitude_along(
-                    *[args[index_freq]],
+                    *[
+                        args[index_freq]
+                        if axis.name == new_args[index_freq]
+                        else axis.name
+                        for axis in data.axes
+                    ],
                     axis_data=axis_data,
                     unit=unit,
                     is_squeeze=is_squeeze,
@@ -167,7 +178,7 @@ def get_magnitude_along(
         return_dict = self.get_along(
             *args,
             axis_data=axis_data,
-            is_squeeze=is_squeeze,
+            is_squeeze=False,
             is_magnitude=True,
             corr_unit=corr_unit,
         )
@@ -178,10 +189,12 @@ def get_magnitude_along(
             if axis.name == "freqs" or axis.corr_name == "freqs":
                 index = axis.index
                 if axis.noct is not None:
-                    (values, foct) = apply_along_axis(
+                    values_foct = apply_along_axis(
                         to_noct, index, values, return_dict["freqs"], noct=axis.noct
                     )
-                    return_dict[axis.name] = foct
+                    values = take(values_foct, 0, axis=index)
+                    foct = moveaxis(take(values_foct, 1, axis=index), index, 0)
+                    return_dict[axis.name] = foct.reshape(foct.shape[0], -1)[:, 0]
         # Convert into right unit (apart because of dBA conversion)
         if unit == self.unit or unit == "SI":
             if is_norm:
@@ -230,18 +243,12 @@ def get_magnitude_along(
                 for axis in return_dict["axes_list"]:
                     if axis.name == "freqs" or axis.corr_name == "freqs":
                         index = axis.index
-                else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
-                        "SI",
-                        return_dict["axes_list"][index].corr_unit,
-                    ]:
-                        freqs = return_dict["axes_list"][index].corr_values
-                    else:
-                        freqs = return_dict["freqs"]
+                        if axis.noct is not None:
+                            freqs = return_dict["freqs"]
+                        else:
+                            freqs = get_physical_freqs(
+                                axis, self.axes[index], self.is_real
+                            )
                 values = apply_along_axis(
                     to_dBA, index, values, freqs, self.unit, ref_value
                 )
@@ -249,18 +256,12 @@ def get_magnitude_along(
                 for axis in return_dict["axes_list"]:
                     if axis.name == "frequency" or axis.corr_name == "frequency":
                         index = axis.index
-                else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
-                        "SI",
-                        return_dict["axes_list"][index].corr_unit,
-                    ]:
-                        freqs = return_dict["axes_list"][index].corr_values
-                    else:
-                        freqs = return_dict["frequency"]
+                        if axis.noct is not None:
+                            freqs = return_dict["frequency"]
+                        else:
+                            freqs = get_physical_freqs(
+                                axis, self.axes[index], self.is_real
+                            )
                 values = apply_along_axis(
                     to_dBA, index, values, freqs, self.unit, ref_value
                 )
@@ -282,5 +283,7 @@ def get_magnitude_along(
             values = self.normalizations.get(unit).normalize(values)
         else:
             values = convert(values, self.unit, unit)
+        if is_squeeze:
+            values = squeeze(values)
         return_dict[self.symbol] = values
         return return_dict
-- 
2.43.0


From acf1077cdeacb7b4ec8e6ac57c106c37c1363278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:57 +0000
Subject: [PATCH 013/113] fix: interpolate compared data on their common axes

---
 SciDataTool/Functions/interpolations.py       | 21 +++++++------------
 SciDataTool/Methods/DataND/compare_along.py   | 11 +++++++++-
 .../Methods/DataND/compare_magnitude_along.py | 11 +++++++++-
 .../Methods/DataND/compare_phase_along.py     | 11 +++++++++-
 4 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 2ef5e8d..34ad26e 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -43,20 +43,13 @@ def get_common_base(values1, values2, is_extrap=False, is_downsample=False):
             len([i for i in values2 if i >= initial and i <= final]),
         )
     else:
-        length1 = len([i for i in values1 if i >= initial and i <= final])
-        length2 = len([i for i in values2 if i >= initial and i <= final])
-        if length1 > length2:
-            number = length1
-            if initial not in values1:
-                initial = values1[argmin(np_abs([i - initial for i in values1])) + 1]
-            if final not in values1:
-                final = values1[argmin(np_abs([i - final for i in values1])) - 1]
-        else:
-            number = length2
-            if initial not in values2:
-                initial = values2[argmin(np_abs([i - initial for i in values2])) + 1]
-            if final not in values2:
-                final = values2[argmin(np_abs([i - final for i in values2])) - 1]
+        # Keep the samples of the finest axis inside the common interval
+        samples1 = [i for i in values1 if i >= initial and i <= final]
+        samples2 = [i for i in values2 if i >= initial and i <= final]
+        samples = samples1 if len(samples1) > len(samples2) else samples2
+        number = len(samples)
+        initial = samples[0]
+        final = samples[-1]
     return linspace(initial, final, int(number), endpoint=True)
 
 
diff --git a/SciDataTool/Methods/DataND/compare_along.py b/SciDataTool/Methods/DataND/compare_along.py
index 18cd2dd..077de45 100644
--- a/SciDataTool/Methods/DataND/compare_along.py
+++ b/SciDataTool/Methods/DataND/compare_along.py
@@ -37,20 +37,29 @@ def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
+        index = 0
         for axis in axes.keys():
+            # Reduced axes and single samples have been squeezed
+            if isinstance(axes[axis], str) or len(axes[axis]) == 1:
+                return_dict[axis] = axes[axis]
+                continue
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values, axes[axis], common_axis_values[axis], index
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    index,
                 )
+            index += 1
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
         return_dict[self.symbol] = values
diff --git a/SciDataTool/Methods/DataND/compare_magnitude_along.py b/SciDataTool/Methods/DataND/compare_magnitude_along.py
index 4fd0ea9..19dd81c 100644
--- a/SciDataTool/Methods/DataND/compare_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/compare_magnitude_along.py
@@ -37,20 +37,29 @@ def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False)
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
+        index = 0
         for axis in axes.keys():
+            # Reduced axes and single samples have been squeezed
+            if isinstance(axes[axis], str) or len(axes[axis]) == 1:
+                return_dict[axis] = axes[axis]
+                continue
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values, axes[axis], common_axis_values[axis], index
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    index,
                 )
+            index += 1
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
         return_dict[self.symbol] = values
diff --git a/SciDataTool/Methods/DataND/compare_phase_along.py b/SciDataTool/Methods/DataND/compare_phase_along.py
index bf45c0d..2251ada 100644
--- a/SciDataTool/Methods/DataND/compare_phase_along.py
+++ b/SciDataTool/Methods/DataND/compare_phase_along.py
@@ -37,20 +37,29 @@ def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
+        index = 0
         for axis in axes.keys():
+            # Reduced axes and single samples have been squeezed
+            if isinstance(axes[axis], str) or len(axes[axis]) == 1:
+                return_dict[axis] = axes[axis]
+                continue
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values, axes[axis], common_axis_values[axis], index
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    index,
                 )
+            index += 1
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
         return_dict[self.symbol] = values
-- 
2.43.0


From 92f86162dffab0d7d482960d9583823b4245abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:02 +0000
Subject: [PATCH 014/113] fix: keep the order of requested axis values when
 they are samples

---
 SciDataTool/Functions/interpolations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 34ad26e..72261e5 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -92,7 +92,8 @@ def get_interpolation(values, axis_values, new_axis_values, index):
     elif isin(
         new_axis_values, axis_values
     ).all():  # New axis is subset -> no interpolation
-        indice_take = where(isin(axis_values, new_axis_values))[0]
+        # Keep the order of the requested values
+        indice_take = [argmin(np_abs(axis_values - x)) for x in new_axis_values]
 
         return take(
             values,
-- 
2.43.0


From 83d0d71f60f6bdd56c49824233764287289f55c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:07 +0000
Subject: [PATCH 015/113] fix: rebuild periodic axes that do not start at zero

---
 SciDataTool/Functions/symmetries.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/symmetries.py b/SciDataTool/Functions/symmetries.py
index 068be3a..c8e8c47 100644
--- a/SciDataTool/Functions/symmetries.py
+++ b/SciDataTool/Functions/symmetries.py
@@ -54,7 +54,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     elif "antiperiod" in symmetries.keys():
@@ -70,7 +73,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     return values_new
-- 
2.43.0


From 4d068a49def95782ced257496885d6c2187a6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:13 +0000
Subject: [PATCH 016/113] fix: do not share normalizations between an axis and
 its periodic reduction

---
 SciDataTool/Methods/Data1D/get_axis_periodic.py       | 7 ++++---
 SciDataTool/Methods/Data1D/to_linspace.py             | 6 ++++--
 SciDataTool/Methods/DataLinspace/get_axis_periodic.py | 5 +++--
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_axis_periodic.py b/SciDataTool/Methods/Data1D/get_axis_periodic.py
index f5fb4ee..87c349c 100644
--- a/SciDataTool/Methods/Data1D/get_axis_periodic.py
+++ b/SciDataTool/Methods/Data1D/get_axis_periodic.py
@@ -27,13 +27,14 @@ def get_axis_periodic(self, Nper, is_aper=False):
     try:
         # Reduce axis to the given periodicity
         Nper = Nper * 2 if is_aper else Nper
-        values = self.values
+        values = self.get_values()
         N = self.get_length()
 
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = {key: norm.copy() for key, norm in self.normalizations.items()}
+        for norm in normalizations.values():
             if isinstance(norm, Norm_vector):
                 norm.vector = norm.vector[: int(N / Nper)]
 
@@ -52,7 +53,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations,
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/Data1D/to_linspace.py b/SciDataTool/Methods/Data1D/to_linspace.py
index 025de20..202531f 100644
--- a/SciDataTool/Methods/Data1D/to_linspace.py
+++ b/SciDataTool/Methods/Data1D/to_linspace.py
@@ -37,8 +37,10 @@ def to_linspace(self):
             include_endpoint=True,
             name=self.name,
             unit=self.unit,
-            symmetries=self.symmetries,
-            normalizations=self.normalizations.copy(),
+            symmetries=self.symmetries.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
index 15e6887..d6057d4 100644
--- a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
+++ b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
@@ -33,7 +33,8 @@ def get_axis_periodic(self, Nper, is_aper=False):
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = {key: norm.copy() for key, norm in self.normalizations.items()}
+        for norm in normalizations.values():
             if isinstance(norm, Norm_vector):
                 norm.vector = norm.vector[: int(N / Nper)]
 
@@ -55,7 +56,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations.copy(),
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
-- 
2.43.0


From a8f4e1e4d880a54cbeae9cd9e044b1ea03747415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:34 +0000
Subject: [PATCH 017/113] fix: number of samples of axes defined by their step

---
 SciDataTool/Classes/_check.py                  | 2 +-
 SciDataTool/Methods/DataLinspace/get_length.py | 4 +++-
 SciDataTool/Methods/DataLinspace/get_values.py | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index 21bff7d..e5df822 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -355,7 +355,7 @@ def check_dimensions(values, axes):
                 try:
                     axes_shape.append(int(axis.number))
                 except:
-                    axes_shape.append(round((axis.final - axis.initial) / axis.step))
+                    axes_shape.append(axis.get_length(is_smallestperiod=True))
 
         if values_shape != tuple(axes_shape):
             for i, s in enumerate(axes_shape):
diff --git a/SciDataTool/Methods/DataLinspace/get_length.py b/SciDataTool/Methods/DataLinspace/get_length.py
index 7c59dfd..48d9598 100644
--- a/SciDataTool/Methods/DataLinspace/get_length.py
+++ b/SciDataTool/Methods/DataLinspace/get_length.py
@@ -17,7 +17,9 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     """
 
     if self.number is None:
-        N = round((self.final - self.initial + self.step) / self.step)
+        N = round((self.final - self.initial) / self.step)
+        if self.include_endpoint:
+            N += 1
     else:
         N = self.number
 
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index ab49789..128e5a8 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -52,10 +52,12 @@ def get_values(
     initial = self.initial
     if self.number == None:
         final = self.final
-        number = (final - initial + self.step) / self.step
+        number = self.get_length(is_smallestperiod=True)
     elif self.final == None:
         number = self.number
         final = self.initial + (number - 1) * self.step
+        if not self.include_endpoint:
+            final += self.step
     else:
         number = self.number
         final = self.final
-- 
2.43.0


From e7bffc172056206712a4af102bf0007ca351aa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:56 +0000
Subject: [PATCH 018/113] fix: change of coordinates of vector fields for any
 axes, components and requests

---
 SciDataTool/Functions/conversions.py          |  8 +-
 SciDataTool/Functions/project_components.py   | 59 ++++++++++++
 .../VectorField/get_harm_rphiz_along.py       | 96 ++++++++-----------
 .../Methods/VectorField/get_harm_xyz_along.py | 72 ++++----------
 .../VectorField/get_mag_rphiz_along.py        | 67 ++++---------
 .../Methods/VectorField/get_mag_xyz_along.py  | 65 +++----------
 .../Methods/VectorField/get_rphiz_along.py    | 78 ++++-----------
 .../Methods/VectorField/get_xyz_along.py      | 89 ++++-------------
 SciDataTool/Methods/VectorField/to_rphiz.py   | 33 +++----
 SciDataTool/Methods/VectorField/to_xyz.py     | 27 +++---
 10 files changed, 222 insertions(+), 372 deletions(-)
 create mode 100644 SciDataTool/Functions/project_components.py

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index b287e29..a9de2ad 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -642,12 +642,12 @@ def rphi_to_xy(r, phi):
     return (x, y)
 
 
-def cart2pol(field_x, field_y, phi):
+def cart2pol(field_x, field_y, phi, index=1):
     cos_phi = cos(phi)
     sin_phi = sin(phi)
 
     dim_array = ones((1, field_x.ndim), int).ravel()
-    dim_array[1] = -1
+    dim_array[min(index, field_x.ndim - 1)] = -1
 
     # Reshape b with dim_array and perform elementwise multiplication with
     # broadcasting along the singleton dimensions for the final output
@@ -660,13 +660,13 @@ def cart2pol(field_x, field_y, phi):
     return (field_r, field_phi)
 
 
-def pol2cart(field_r, field_phi, phi):
+def pol2cart(field_r, field_phi, phi, index=1):
     cos_phi = cos(phi)
     sin_phi = sin(phi)
 
     dim_array = ones((1, field_r.ndim), int).ravel()
     if len(dim_array) > 1:
-        dim_array[1] = -1
+        dim_array[index] = -1
 
         # Reshape b with dim_array and perform elementwise multiplication with
         # broadcasting along the singleton dimensions for the final output
diff --git a/SciDataTool/Functions/project_components.py b/SciDataTool/Functions/project_components.py
new file mode 100644
index 0000000..5f0d74f
--- /dev/null
+++ b/SciDataTool/Functions/project_components.py
@@ -0,0 +1,59 @@
+from numpy import zeros
+
+from SciDataTool.Functions import AxisError
+from SciDataTool.Classes.DataPattern import DataPattern
+
+
+def project_components(components, name1, name2, projection, args):
+    """Returns the two in-plane components of a vector field in another coordinate system, along the whole axes.
+    Parameters
+    ----------
+    components: dict
+        Components of the vector field
+    name1: str
+        Name of the first in-plane component
+    name2: str
+        Name of the second in-plane component (missing components are zero)
+    projection: function
+        Function converting the components (cart2pol or pol2cart)
+    args: list of strings
+        List of axes requested by the user
+    Returns
+    -------
+    list of the two projected Data objects
+    """
+
+    Comp = components[name1] if name1 in components else components[name2]
+
+    # The angle is needed as a whole (or as requested), the other axes as stored
+    is_smallestperiod = "angle[smallestperiod]" in args
+    new_args = []
+    for axis in Comp.axes:
+        if axis.name in ["angle", "wavenumber"]:
+            index = len(new_args)
+            new_args.append("angle[smallestperiod]" if is_smallestperiod else "angle")
+        elif axis.name == "freqs":
+            new_args.append(axis.name)
+        else:
+            new_args.append(axis.name + "[smallestperiod]")
+    if "angle" not in new_args and "angle[smallestperiod]" not in new_args:
+        raise AxisError("Angle axis is required to change the coordinate system")
+
+    Data_list = []
+    for name in [name1, name2]:
+        if name in components:
+            Data_list.append(components[name].get_data_along(*new_args))
+        else:
+            Data_list.append(Comp.get_data_along(*new_args))
+            Data_list[-1].values = zeros(Data_list[-1].values.shape)
+        # Keep the patterns of the stored axes
+        for ii, axis in enumerate(Comp.axes):
+            if isinstance(axis, DataPattern):
+                Data_list[-1].axes[ii] = axis.copy()
+
+    phi = Data_list[0].axes[index].get_values(is_smallestperiod=True)
+    Data_list[0].values, Data_list[1].values = projection(
+        Data_list[0].values, Data_list[1].values, phi, index
+    )
+
+    return Data_list
diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index 0e226d2..6ff8507 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
 from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.project_components import project_components
 from SciDataTool.Functions import AxisError
 
 
@@ -26,66 +27,29 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Convert to cylindrical coordinates along whole "angle" axis
+        Datar, Datac = project_components(
+            self.components, "comp_x", "comp_y", cart2pol, args
+        )
+        # Extract with true args
+        resultr = Datar.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datar.symbol]
+        resultt = Datac.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_t = resultt[Datac.symbol]
+        shape = field_r.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_harmonics(
@@ -108,7 +72,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Datar.symbol]
 
     elif "tangential" in self.components.keys():
         resultphi = self.components["tangential"].get_harmonics(
@@ -120,7 +84,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
             resultr = self.components["radial"].get_harmonics(
                 N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
-            field_r = resultphi[self.components["radial"].symbol]
+            field_r = resultr[self.components["radial"].symbol]
         else:
             field_r = zeros(shape)
         if "axial" in self.components.keys():
@@ -138,6 +102,28 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         return_dict = dict(resultphi)
         del return_dict[self.components["tangential"].symbol]
 
+    elif "radial" in self.components.keys():
+        resultr = self.components["radial"].get_harmonics(
+            N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+        )
+        field_r = resultr[self.components["radial"].symbol]
+        shape = field_r.shape
+        field_t = zeros(shape)
+        if "axial" in self.components.keys():
+            resultz = self.components["axial"].get_harmonics(
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+            )
+            field_z = resultz[self.components["axial"].symbol]
+        elif "comp_z" in self.components.keys():
+            resultz = self.components["comp_z"].get_harmonics(
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+            )
+            field_z = resultz[self.components["comp_z"].symbol]
+        else:
+            field_z = zeros(shape)
+        return_dict = dict(resultr)
+        del return_dict[self.components["radial"].symbol]
+
     elif "axial" in self.components.keys():
         resultz = self.components["axial"].get_harmonics(
             N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
@@ -150,7 +136,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         del return_dict[self.components["axial"].symbol]
 
     elif "comp_z" in self.components.keys():
-        resultz = self.components["z"].get_harmonics(
+        resultz = self.components["comp_z"].get_harmonics(
             N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
         )
         field_z = resultz[self.components["comp_z"].symbol]
diff --git a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
index 7822786..43966a4 100644
--- a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
-from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.conversions import pol2cart
+from SciDataTool.Functions.project_components import project_components
 from SciDataTool.Functions import AxisError
 
 
@@ -26,66 +27,29 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
+        # Convert to cartesian coordinates along whole "angle" axis
+        Datax, Datay = project_components(
+            self.components, "radial", "tangential", pol2cart, args
+        )
+        # Extract with true args
+        resultx = Datax.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[Datax.symbol]
+        resulty = Datay.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[Datay.symbol]
+        shape = field_x.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_harmonics(
@@ -109,7 +73,7 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datax.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
index 6dc0444..4baefa2 100644
--- a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
 from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.project_components import project_components
 from SciDataTool.Functions import AxisError
 
 
@@ -26,63 +27,27 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Convert to cylindrical coordinates along whole "angle" axis
+        Datar, Datac = project_components(
+            self.components, "comp_x", "comp_y", cart2pol, args
+        )
+        # Extract with true args
+        resultr = Datar.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datar.symbol]
+        resultt = Datac.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_t = resultt[Datac.symbol]
+        shape = field_r.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_magnitude_along(
@@ -103,7 +68,7 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Datar.symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_magnitude_along(
@@ -143,7 +108,7 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             resultr = self.components["radial"].get_magnitude_along(
                 args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
-            field_r = resultphi[self.components["radial"].symbol]
+            field_r = resultr[self.components["radial"].symbol]
         else:
             field_r = zeros(shape)
         if "axial" in self.components.keys():
diff --git a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
index 92fb5ab..e97d530 100644
--- a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
 from SciDataTool.Functions.conversions import pol2cart
+from SciDataTool.Functions.project_components import project_components
 from SciDataTool.Functions import AxisError
 
 
@@ -26,63 +27,27 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
+        # Convert to cartesian coordinates along whole "angle" axis
+        Datax, Datay = project_components(
+            self.components, "radial", "tangential", pol2cart, args
+        )
+        # Extract with true args
+        resultx = Datax.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[Datax.symbol]
+        resulty = Datay.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[Datay.symbol]
+        shape = field_x.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_magnitude_along(
@@ -104,7 +69,7 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datax.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index 3a733a8..0a53a2d 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
 from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.project_components import project_components
 from SciDataTool.Functions import AxisError
 
 
@@ -28,72 +29,29 @@ def get_rphiz_along(
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole or smallest period "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != [] and "smallestperiod" not in string[0]:
-            new_args[args.index(string[0])] = "angle"
-        elif string == []:
-            if "wavenumber" in args:
-                new_args[args.index("wavenumber")] = "angle"
-            else:
-                new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Convert to cylindrical coordinates along whole "angle" axis
+        Datar, Datac = project_components(
+            self.components, "comp_x", "comp_y", cart2pol, args
+        )
+        # Extract with true args
+        resultr = Datar.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datar.symbol]
+        resultt = Datac.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        if string != [] and "smallestperiod" in string[0]:
-            phi = Datax.get_axes("angle")[0].get_values(is_smallestperiod=True)
-        else:
-            phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_c) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
-            Datax.values = field_r
-            Datay.values = field_c
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_c = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
+        field_c = resultt[Datac.symbol]
+        shape = field_r.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_along(
@@ -116,7 +74,7 @@ def get_rphiz_along(
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Datar.symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_along(
@@ -172,7 +130,7 @@ def get_rphiz_along(
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_r = resultphi[self.components["radial"].symbol]
+            field_r = resultr[self.components["radial"].symbol]
         else:
             field_r = zeros(shape)
         if "axial" in self.components.keys():
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 67fffff..1dfba31 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
 from SciDataTool.Functions.conversions import pol2cart
+from SciDataTool.Functions.project_components import project_components
 from SciDataTool.Functions import AxisError
 
 
@@ -27,78 +28,28 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         args = args[0]  # if called from another script with *args
 
     if "radial" in self.components.keys() or "tangential" in self.components.keys():
-        # Extract first along whole or smallest period "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != [] and "smallestperiod" not in string[0]:
-            new_args[args.index(string[0])] = "angle"
-        elif string == []:
-            if "wavenumber" in args:
-                new_args[args.index("wavenumber")] = "angle[smallestperiod]"
-            else:
-                new_args.extend(["angle[smallestperiod]"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+        # Convert to cartesian coordinates along whole "angle" axis
+        Datax, Datay = project_components(
+            self.components, "radial", "tangential", pol2cart, args
+        )
+        # Extract with true args
+        resultx = Datax.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        field_r = Datar.values
-        shape = field_r.shape
-        if "tangential" in self.components.keys():
-            Dataphi = self.components["tangential"].get_data_along(
-                *new_args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_c = Dataphi.values
-        else:
-            field_c = zeros(shape, dtype=field_r.dtype)
-            Dataphi = type(Datar)(
-                name=Datar.name,
-                unit=Datar.unit,
-                symbol=Datar.symbol,
-                axes=Datar.axes,
-                values=field_c,
-            )
-        phi = Datar.get_axes("angle")[0].get_values(is_smallestperiod=True)
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
+        field_x = resultx[Datax.symbol]
+        resulty = Datay.get_along(
+            args,
+            unit=unit,
+            is_norm=is_norm,
+            axis_data=axis_data,
+            is_squeeze=is_squeeze,
+        )
+        field_y = resulty[Datay.symbol]
+        shape = field_x.shape
         # Add axial component
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_along(
@@ -122,7 +73,7 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datax.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_along(
diff --git a/SciDataTool/Methods/VectorField/to_rphiz.py b/SciDataTool/Methods/VectorField/to_rphiz.py
index 7c2e411..26258da 100644
--- a/SciDataTool/Methods/VectorField/to_rphiz.py
+++ b/SciDataTool/Methods/VectorField/to_rphiz.py
@@ -21,35 +21,36 @@ def to_rphiz(self):
         return self.copy()
 
     else:
+        # Component giving the axes, name and symbol of the in-plane components
+        if "comp_x" in self.components:
+            Comp, suffix, axis_str = self.components["comp_x"], "_x", " along x-axis"
+        else:
+            Comp, suffix, axis_str = self.components["comp_y"], "_y", " along y-axis"
         # Coordinate transform
         arg_list = [
             axis.name
             if axis.name in ["freqs", "wavenumber"]
             else axis.name + "[smallestperiod]"
-            for axis in self.components["comp_x"].axes
+            for axis in Comp.axes
         ]
-        result = self.get_rphiz_along(*arg_list)
+        result = self.get_rphiz_along(*arg_list, is_squeeze=False)
         # Store in new VectorField
         comp_dict = dict()
 
-        Comp_r = self.components["comp_x"].copy()
-        Comp_r.name = "Radial " + self.components["comp_x"].name.lower().replace(
-            " along x-axis", ""
-        )
-        Comp_r.symbol = self.components["comp_x"].symbol.replace("_x", "_r")
+        Comp_r = Comp.copy()
+        Comp_r.name = "Radial " + Comp.name.lower().replace(axis_str, "")
+        Comp_r.symbol = Comp.symbol.replace(suffix, "_r")
         Comp_r.values = result["radial"]
         comp_dict["radial"] = Comp_r
 
-        Comp_t = self.components["comp_x"].copy()
-        Comp_t.name = "Tangential " + self.components["comp_x"].name.lower().replace(
-            " along x-axis", ""
-        )
-        Comp_t.symbol = self.components["comp_x"].symbol.replace("_r", "_y")
+        Comp_t = Comp.copy()
+        Comp_t.name = "Tangential " + Comp.name.lower().replace(axis_str, "")
+        Comp_t.symbol = Comp.symbol.replace(suffix, "_t")
         Comp_t.values = result["tangential"]
-        comp_dict["comp_y"] = Comp_t
+        comp_dict["tangential"] = Comp_t
 
-        if "axial" in self.components:
-            Comp_z = self.components["axial"].copy()
-            comp_dict["comp_z"] = Comp_z
+        if "comp_z" in self.components:
+            Comp_z = self.components["comp_z"].copy()
+            comp_dict["axial"] = Comp_z
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
diff --git a/SciDataTool/Methods/VectorField/to_xyz.py b/SciDataTool/Methods/VectorField/to_xyz.py
index 027ac91..e024a44 100644
--- a/SciDataTool/Methods/VectorField/to_xyz.py
+++ b/SciDataTool/Methods/VectorField/to_xyz.py
@@ -17,37 +17,38 @@ def to_xyz(self):
         return self.copy()
 
     else:
+        # Component giving the axes, name and symbol of the in-plane components
+        if "radial" in self.components:
+            Comp, suffix, axis_str = self.components["radial"], "_r", "radial "
+        else:
+            Comp, suffix, axis_str = self.components["tangential"], "_t", "tangential "
         # Coordinate transform
         arg_list = [
             axis.name
             if axis.name in ["freqs", "wavenumber"]
             else axis.name + "[smallestperiod]"
-            for axis in self.components["radial"].axes
+            for axis in Comp.axes
         ]
         result = self.get_xyz_along(*arg_list, is_squeeze=False)
         # Store in new VectorField
         comp_dict = dict()
 
-        Comp_x = self.components["radial"].copy()
-        Comp_x.name = (
-            self.components["radial"].name.lower().replace("radial ", "")
-            + " along x-axis"
-        )
-        Comp_x.symbol = self.components["radial"].symbol.replace("_r", "_x")
+        Comp_x = Comp.copy()
+        Comp_x.name = Comp.name.lower().replace(axis_str, "") + " along x-axis"
+        Comp_x.symbol = Comp.symbol.replace(suffix, "_x")
         Comp_x.values = result["comp_x"]
         comp_dict["comp_x"] = Comp_x
 
-        Comp_y = self.components["radial"].copy()
-        Comp_y.name = (
-            self.components["radial"].name.lower().replace("radial ", "")
-            + " along y-axis"
-        )
-        Comp_y.symbol = self.components["radial"].symbol.replace("_r", "_y")
+        Comp_y = Comp.copy()
+        Comp_y.name = Comp.name.lower().replace(axis_str, "") + " along y-axis"
+        Comp_y.symbol = Comp.symbol.replace(suffix, "_y")
         Comp_y.values = result["comp_y"]
         comp_dict["comp_y"] = Comp_y
 
         if "axial" in self.components:
             Comp_z = self.components["axial"].copy()
             comp_dict["comp_z"] = Comp_z
+        elif "comp_z" in self.components:
+            comp_dict["comp_z"] = self.components["comp_z"].copy()
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
-- 
2.43.0


From 02be2d7ae28cb94477d8177cbdeecb3f03335c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:20 +0000
Subject: [PATCH 019/113] fix: reject negative frequencies in sum and
 convolution of spectra

---
 SciDataTool/Methods/DataFreq/conv.py | 4 ++--
 SciDataTool/Methods/DataFreq/sum.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataFreq/conv.py b/SciDataTool/Methods/DataFreq/conv.py
index 9d64694..52769c5 100644
--- a/SciDataTool/Methods/DataFreq/conv.py
+++ b/SciDataTool/Methods/DataFreq/conv.py
@@ -56,14 +56,14 @@ def conv(
         raise Exception("self axis is not frequency axis")
     else:
         freqs1 = self.axes[0].get_values()
-        if np_any(freqs1) < 0:
+        if np_any(freqs1 < 0):
             raise Exception("self contains negative frequency values")
 
     if other.axes[0].name != "freqs":
         raise Exception("other axis is not frequency axis")
     else:
         freqs2 = other.axes[0].get_values()
-        if np_any(freqs2) < 0:
+        if np_any(freqs2 < 0):
             raise Exception("other contains negative frequency values")
 
     # Fill metadata
diff --git a/SciDataTool/Methods/DataFreq/sum.py b/SciDataTool/Methods/DataFreq/sum.py
index 45c8f73..6ed8837 100644
--- a/SciDataTool/Methods/DataFreq/sum.py
+++ b/SciDataTool/Methods/DataFreq/sum.py
@@ -50,14 +50,14 @@ def sum(
         raise Exception("self axis is not frequency axis")
     else:
         freqs1 = self.axes[0].get_values()
-        if np_any(freqs1) < 0:
+        if np_any(freqs1 < 0):
             raise Exception("self contains negative frequency values")
 
     if other.axes[0].name != "freqs":
         raise Exception("other axis is not frequency axis")
     else:
         freqs2 = other.axes[0].get_values()
-        if np_any(freqs2) < 0:
+        if np_any(freqs2 < 0):
             raise Exception("other contains negative frequency values")
 
     # Fill metadata
-- 
2.43.0


From a2d1827b830d05096392df0a128de690bb311d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:25 +0000
Subject: [PATCH 020/113] fix: harmonics of fields whose space axis comes
 before the time axis

---
 SciDataTool/Methods/DataND/get_harmonics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/get_harmonics.py b/SciDataTool/Methods/DataND/get_harmonics.py
index dbf42cf..7cfff8e 100644
--- a/SciDataTool/Methods/DataND/get_harmonics.py
+++ b/SciDataTool/Methods/DataND/get_harmonics.py
@@ -40,7 +40,12 @@ def get_harmonics(
         f = return_dict["freqs"]
         # Flatten the data
         values_flat = values.flatten()
-        R, F = meshgrid(r, f)
+        # Follow the order of the dimensions of values
+        index = {axis.name: axis.index for axis in return_dict["axes_list"]}
+        if index["freqs"] < index["wavenumber"]:
+            R, F = meshgrid(r, f)
+        else:
+            F, R = meshgrid(f, r)
         f = F.flatten()
         r = R.flatten()
         # Get the N_harm largest peaks
-- 
2.43.0


From d6385a76cbf7c4b83345bb4fc8373d842455e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:46 +0000
Subject: [PATCH 021/113] fix: choose the period holding the requested values
 in the requested unit

---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 12a770c..cf49d77 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -116,8 +116,10 @@ def get_axis(self, axis, is_real):
                 # Check if symmetries need to be reconstructed to match input_data
                 axis_values = axis.get_values(
                     is_smallestperiod=True,
+                    unit=self.unit,
                     operation=self.operation,
                     is_real=is_real,
+                    corr_unit=self.corr_unit,
                 )
                 if min(self.input_data) >= min(axis_values) and max(
                     self.input_data
@@ -128,8 +130,10 @@ def get_axis(self, axis, is_real):
                 else:
                     axis_values = axis.get_values(
                         is_oneperiod=True,
+                        unit=self.unit,
                         operation=self.operation,
                         is_real=is_real,
+                        corr_unit=self.corr_unit,
                     )
                     if min(self.input_data) >= min(axis_values) and max(
                         self.input_data
-- 
2.43.0


From 95ebc0641fc0761447d7a86fce8ee37c88b3d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:38 +0000
Subject: [PATCH 022/113] fix: do not give access to stored values and
 normalizations through results

---
 SciDataTool/Methods/Data1D/get_values.py      | 25 +++++++++----------
 .../Methods/DataLinspace/get_values.py        | 23 ++++++++---------
 SciDataTool/Methods/DataND/_get_field.py      |  3 ++-
 SciDataTool/Methods/DataPattern/get_values.py |  4 +--
 SciDataTool/Methods/Norm_vector/normalize.py  |  2 +-
 5 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index d691c22..ce3acbf 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -49,7 +49,7 @@ def get_values(
             normalization = unit
             unit = "SI"
 
-    values = self.values
+    values = self.values if self.values is None else self.values.copy()
     norm_vector = None
 
     # Ignore symmetries if fft axis
@@ -66,11 +66,9 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            symmetries = self.symmetries.copy()
+            symmetries["antiperiod"] = 2
+            values = rebuild_symmetries_axis(values, symmetries)
         elif "period" in self.symmetries:
             pass
         else:
@@ -82,9 +80,10 @@ def get_values(
             and normalization in self.normalizations
             and isinstance(self.normalizations[normalization], Norm_vector)
         ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
+            # Use a copy so that the stored vector is left unchanged
+            norm_vector = self.normalizations[normalization].copy()
+            norm_vector.vector = rebuild_symmetries_axis(
+                norm_vector.vector, self.symmetries
             )
 
     # fft/ifft
@@ -108,7 +107,10 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                if norm_vector is not None:
+                    values = norm_vector.normalize(values)
+                else:
+                    values = self.normalizations[normalization].normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -121,7 +123,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index 128e5a8..4c3a5a2 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -79,11 +79,9 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            symmetries = self.symmetries.copy()
+            symmetries["antiperiod"] = 2
+            values = rebuild_symmetries_axis(values, symmetries)
         elif "period" in self.symmetries:
             pass
         else:
@@ -95,9 +93,10 @@ def get_values(
             and normalization in self.normalizations
             and isinstance(self.normalizations[normalization], Norm_vector)
         ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
+            # Use a copy so that the stored vector is left unchanged
+            norm_vector = self.normalizations[normalization].copy()
+            norm_vector.vector = rebuild_symmetries_axis(
+                norm_vector.vector, self.symmetries
             )
 
     # fft/ifft
@@ -121,7 +120,10 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                if norm_vector is not None:
+                    values = norm_vector.normalize(values)
+                else:
+                    values = self.normalizations[normalization].normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -134,7 +136,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 2e6d8cc..fa10e16 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -16,7 +16,8 @@ def _get_field(self, axes_list):
         values of the field
     """
 
-    values = self.values
+    # Do not give access to the stored values
+    values = self.values.copy()
     for axis_requested in axes_list:
         # Rebuild symmetries when needed
         axis_symmetries = self.axes[axis_requested.index].symmetries
diff --git a/SciDataTool/Methods/DataPattern/get_values.py b/SciDataTool/Methods/DataPattern/get_values.py
index 7ceac9d..3d1a397 100644
--- a/SciDataTool/Methods/DataPattern/get_values.py
+++ b/SciDataTool/Methods/DataPattern/get_values.py
@@ -41,14 +41,14 @@ def get_values(
     -------
     Vector of axis values
     """
-    values = self.values
+    values = self.values if self.values is None else self.values.copy()
 
     # Rebuild pattern
     if is_smallestperiod or is_pattern:
         pass
     else:
         if self.values_whole is not None:
-            values = self.values_whole
+            values = self.values_whole.copy()
         else:
             values = values[self.rebuild_indices]
 
diff --git a/SciDataTool/Methods/Norm_vector/normalize.py b/SciDataTool/Methods/Norm_vector/normalize.py
index c88b187..fc34bd6 100644
--- a/SciDataTool/Methods/Norm_vector/normalize.py
+++ b/SciDataTool/Methods/Norm_vector/normalize.py
@@ -21,4 +21,4 @@ def normalize(
             "Normalization vector is not the same length as axis, cannot normalize"
         )
     else:
-        return self.vector
+        return self.vector.copy()
-- 
2.43.0


From b20da5c0c4330a02fac596328ce84088aea8287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:22 +0000
Subject: [PATCH 023/113] fix: restore real data flag when a spectral request
 fails

---
 .../Methods/DataND/change_referential.py      | 11 +++---
 .../Methods/DataND/filter_spectral_leakage.py | 35 ++++++++++---------
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index b81b14e..d23c64f 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -115,7 +115,12 @@ def change_referential(
         is_real = True
 
     # Extract data from vectorfield on one period
-    result = self.get_along(*arg_list, is_squeeze=False)
+    try:
+        result = self.get_along(*arg_list, is_squeeze=False)
+    finally:
+        if not is_waveform and hasattr(self, "is_real"):
+            # Reset data
+            self.is_real = is_real
     values = result[self.symbol]
 
     if is_waveform:
@@ -238,8 +243,4 @@ def change_referential(
         is_real=is_real,
     )
 
-    if not is_waveform and hasattr(self, "is_real"):
-        # Reset data
-        self.is_real = is_real
-
     return data_new, axes_list_change, arg_list, freqs_new, I1, Irf_un, ta_in, ta_out
diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 8c8ee07..fec91a2 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -74,22 +74,25 @@ def filter_spectral_leakage(
 
     is_real = self.is_real
     self.is_real = False  # To have negative frequencies
-    result = self.get_along(*arg_list, is_squeeze=False)
-    freqs = result["freqs"]
-    spectrum = result[self.symbol]
-
-    if Wmatf.size == 0:
-        # Get time step
-        Time = self.get_axes("time")
-        if len(Time) > 0:
-            time = Time[0].get_values()
+    try:
+        result = self.get_along(*arg_list, is_squeeze=False)
+        freqs = result["freqs"]
+        spectrum = result[self.symbol]
+
+        if Wmatf.size == 0:
+            # Get time step
+            Time = self.get_axes("time")
+            if len(Time) > 0:
+                time = Time[0].get_values()
+            else:
+                result_time = self.get_along("time")
+                time = result_time["time"]
+            dt = time[1] - time[0]
+            Nt = time.size
         else:
-            result_time = self.get_along("time")
-            time = result_time["time"]
-        dt = time[1] - time[0]
-        Nt = time.size
-    else:
-        Nt, dt = None, None
+            Nt, dt = None, None
+    finally:
+        self.is_real = is_real
 
     if is_real and np.where(freqs < 0)[0].size == 0:
         # Mirror values to negative frequencies
@@ -187,8 +190,6 @@ def filter_spectral_leakage(
         is_real=True,
     )
 
-    self.is_real = is_real
-
     if is_return_calc_data:
         return data_filt, axes_list_filt, arg_list, Wmatf, If, freqs_th
 
-- 
2.43.0


From 070256714545d001b908b93925160cb012a9f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:40 +0000
Subject: [PATCH 024/113] fix: dimensions of units and prefixes that are also
 unit symbols

---
 SciDataTool/Functions/conversions.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index a9de2ad..f41f884 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -44,7 +44,7 @@ unit_symbols = [
     ("Mx", 1.0e-8, (1, 2, -2, 0, 0, -1)),  # Maxwell
     ("Hz", 1.0, (0, 0, -1, 0, 0, 0)),  # Herz
     ("Pa", 1.0, (1, -1, -2, 0, 0, 0)),  # Pascal
-    ("g", 1.0e-3, (0, 1, 0, 0, 0, 0)),  # gram
+    ("g", 1.0e-3, (1, 0, 0, 0, 0, 0)),  # gram
     ("s", 1.0, (0, 0, 1, 0, 0, 0)),  # second
     ("h", 3600.0, (0, 0, 1, 0, 0, 0)),  # hour
     #    ("K",       1.0, (0,0,0,1,0,0)),   # Kelvin
@@ -57,8 +57,8 @@ unit_symbols = [
     ("G", 1.0e-4, (1, 0, -2, 0, 0, -1)),  # Gauss
     ("V", 1.0, (1, 2, -3, 0, 0, -1)),  # Volt
     ("F", 1.0, (-1, -2, 4, 0, 0, 2)),  # Farrad
-    ("H", 1.0, (1, -2, -2, 0, 0, -2)),  # Henry
-    ("m", 1.0, (1, 0, 0, 0, 0, 0)),  # meter
+    ("H", 1.0, (1, 2, -2, 0, 0, -2)),  # Henry
+    ("m", 1.0, (0, 1, 0, 0, 0, 0)),  # meter
 ]
 # Dictionnary of the prefixes and their values
 unit_prefixes = {
@@ -95,15 +95,14 @@ def get_dim_prefix(unit_str):
     dim = None
     for key in unit_symbols:
         if key[0] in unit_str:
-            if unit_str.rsplit(key[0], 1)[1].isdigit():
-                p = int(unit_str.rsplit(key[0], 1)[1])
-            dim = [p * d for d in key[2]]
-            prefix_str = unit_str.rsplit(key[0], 1)[0]
-            if prefix_str in unit_prefixes.keys():
+            prefix_str, p_str = unit_str.rsplit(key[0], 1)
+            # Symbol must be between a known prefix and an optional power
+            if prefix_str in unit_prefixes.keys() and (p_str == "" or p_str.isdigit()):
+                if p_str != "":
+                    p = int(p_str)
+                dim = [p * d for d in key[2]]
                 prefix = (unit_prefixes.get(prefix_str) * key[1]) ** p
-            else:
-                raise UnitError("Prefix " + prefix_str + " unknown")
-            break
+                break
     if not dim:
         raise UnitError("Unit " + unit_str + " unknown")
     return (dim, prefix)
-- 
2.43.0


From 80cb9efe42e83499ccb087ef0de32efeb42fa715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:44 +0000
Subject: [PATCH 025/113] fix: reject units with several denominators

---
 SciDataTool/Functions/conversions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index f41f884..468da9a 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -236,6 +236,9 @@ def convert(values, unit1, unit2):
         # Format the strings
         unit1 = unit1.replace("*", "").replace(" ", "").replace("^", "")
         unit2 = unit2.replace("*", "").replace(" ", "").replace("^", "")
+        for unit in [unit1, unit2]:
+            if unit.count("/") > 1:
+                raise UnitError("Unit " + unit + " unknown")
         # Unit1 parsing
         if "/" in unit1:
             dim1_denom, prefix1_denom = get_dim_prefix(unit1.split("/")[1])
-- 
2.43.0


From 021651133da19d510df141d79017e11f54fd87f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:42 +0000
Subject: [PATCH 026/113] fix: inverse transform of two-sided spectra along
 wavenumbers only

---
 SciDataTool/Functions/fft_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 47a4e72..c02fce7 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -452,7 +452,12 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                 axes.append(axis.index)
                 shape.append(2 * (values.shape[axis.index] - 1))
                 is_onereal = True
-            elif is_real and axis.name == "angle" and "time" not in axis_names:
+            elif (
+                is_real
+                and axis.name == "angle"
+                and "time" not in axis_names
+                and min(axis.corr_values) >= 0
+            ):
                 axes.append(axis.index)
                 shape.append(values.shape[axis.index])
                 is_half = True
-- 
2.43.0


From c1919e7b3941a0e61cc5fd3d1ab06e7bb5b4c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:42 +0000
Subject: [PATCH 027/113] fix: keep the order of values requested on step axes

---
 SciDataTool/Functions/interpolations.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 72261e5..b11aae8 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -10,7 +10,6 @@ from numpy import (
     abs as np_abs,
     where,
     zeros,
-    unique,
 )
 from scipy.interpolate import interp1d
 
@@ -132,18 +131,12 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
     elif isin(
         new_axis_values, axis_values
     ).all():  # New axis is subset -> no interpolation
-        values_slices = []
-        indice_take = where(isin(axis_values, new_axis_values))[0]
-        _, idx_start, count = unique(
-            axis_values[indice_take], return_counts=True, return_index=True
-        )
-        if len(idx_start) > 0:
-            for i, ii in enumerate(idx_start):
-                values_slices.append(
-                    take(values, indice_take[ii : ii + count[i]], axis=index).mean(
-                        axis=index
-                    )
-                )
+        if len(new_axis_values) > 0:
+            # Keep the order of the requested values, mean of both sides at steps
+            values_slices = [
+                take(values, where(axis_values == x)[0], axis=index).mean(axis=index)
+                for x in new_axis_values
+            ]
             return stack(values_slices, axis=index)
         else:
             return take(values, [], axis=index)
-- 
2.43.0


From 00d51c91657cbcb0750cd5753a5f5a4accc4c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:20 +0000
Subject: [PATCH 028/113] fix: values requested on patterns and pairs of
 requested values

---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index cf49d77..ca9b770 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -31,6 +31,9 @@ def get_axis(self, axis, is_real):
         an Axis object
     """
 
+    # The extension can be modified below to match the input data
+    is_axis_data = self.extension == "axis_data"
+
     if self.operation is not None:
         module = import_module("SciDataTool.Functions.conversions")
         func = getattr(module, self.operation)  # Conversion function
@@ -112,7 +115,7 @@ def get_axis(self, axis, is_real):
             is_oneperiod = False
             is_antiperiod = False
         else:
-            if self.input_data is not None and not self.is_step:
+            if self.input_data is not None and not self.is_pattern:
                 # Check if symmetries need to be reconstructed to match input_data
                 axis_values = axis.get_values(
                     is_smallestperiod=True,
@@ -146,8 +149,7 @@ def get_axis(self, axis, is_real):
                         is_smallestperiod = False
                         is_oneperiod = False
                         is_antiperiod = False
-                        if not self.is_pattern:
-                            self.extension = "interval"
+                        self.extension = "interval"
             elif self.transform == "ifft":  # Ignore symmetries in ifft case
                 is_smallestperiod = True
                 is_oneperiod = False
@@ -214,7 +216,7 @@ def get_axis(self, axis, is_real):
         if self.input_data is None:
             self.values = values
         else:
-            if len(self.input_data) == 2 and self.extension != "axis_data":
+            if len(self.input_data) == 2 and not is_axis_data:
                 indices = [
                     i
                     for i, x in enumerate(values)
-- 
2.43.0


From 8771a8707a74301dbf7f19bd8193a4688242a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:20 +0000
Subject: [PATCH 029/113] fix: operations along anti-periodic axes after
 operations along other axes

---
 .../Methods/DataND/_apply_operations.py       | 43 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 996c898..708eed3 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -1,4 +1,4 @@
-from numpy import abs as np_abs, concatenate, nanmax, nanmin
+from numpy import abs as np_abs, concatenate, nanmax, nanmin, take
 
 from SciDataTool.Functions.derivation_integration import (
     derivate,
@@ -13,6 +13,20 @@ from SciDataTool.Functions.sum_mean import (
     root_mean_square,
     root_sum_square,
 )
+from SciDataTool.Functions.symmetries import rebuild_symmetries_axis
+
+operation_list = [
+    "max",
+    "min",
+    "sum",
+    "rss",
+    "mean",
+    "rms",
+    "integrate",
+    "integrate_local",
+    "derivate",
+    "antiderivate",
+]
 
 
 def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
@@ -33,6 +47,25 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
     if is_magnitude and "dB" not in unit:
         values = np_abs(values)
 
+    # Complete over one period the anti-periodic axes on which an operation is applied
+    # after another one that does not preserve anti-periodicity
+    completed = []
+    is_odd = not is_magnitude
+    for axis_requested in axes_list:
+        index = axis_requested.index
+        if (
+            not is_odd
+            and not is_magnitude
+            and axis_requested.extension in operation_list
+            and axis_requested.name not in ["freqs", "frequency", "wavenumber"]
+            and not axis_requested.is_pattern
+            and self.axes[index].get_periodicity()[1]
+        ):
+            values = concatenate((values, -values), axis=index)
+            completed.append(index)
+        if axis_requested.extension in ["max", "min", "rss", "rms"]:
+            is_odd = False
+
     # Apply sums, means, etc
     for axis_requested in axes_list:
         # Get axis data
@@ -62,6 +95,11 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
         elif is_magnitude and is_aper:
             # Magnitude of an anti-periodic field is periodic
             is_aper = False
+        elif index in completed:
+            n_samples = ax_val.size
+            symmetries = dict(self.axes[index].symmetries, antiperiod=2)
+            ax_val = rebuild_symmetries_axis(ax_val, symmetries)
+            Nper, is_aper = Nper // 2, False
         # Both signs are reached over an anti-periodic axis
         if is_aper and extension in ["max", "min"]:
             values = concatenate((values, -values), axis=index)
@@ -117,6 +155,9 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
         # derivation over derivation axes
         elif extension == "derivate":
             values = derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs)
+        # Axes are returned on the anti-period
+        if index in completed and values.shape[index] > 1:
+            values = take(values, range(n_samples), axis=index)
 
     if is_magnitude and "dB" in unit:  # Correction for negative/small dB/dBA
         values[values < 2] = 0
-- 
2.43.0


From c86acd4fd28830b2e3ddf0294623c00f92b19e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:56 +0000
Subject: [PATCH 030/113] fix: evaluate Fourier series at regular points out of
 the FFT grid

---
 SciDataTool/Functions/fft_functions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index c02fce7..8dc8908 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -399,10 +399,22 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                             freqs = [
                                 f * axis_obj.symmetries["antiperiod"] / 2 for f in freqs
                             ]
+                    # Check if points are on the grid given by the inverse FFT
+                    is_on_grid = False
+                    if len(axis.corr_values) > 1:
+                        grid = comp_fft_time(
+                            axis.corr_values, axis.name == "angle", is_real
+                        )
+                        if len(grid) > 1:
+                            steps = axis.input_data / (grid[1] - grid[0])
+                            is_on_grid = allclose(
+                                steps, around(steps), rtol=0, atol=1e-5
+                            )
                     # If already one non uniform axis, use NUDFT
                     if (
                         axes_dict_non_uniform
                         or len(axis.corr_values) == 1
+                        or not is_on_grid
                         or (
                             len(axis.corr_values) > 1
                             and (
-- 
2.43.0


From 2a0e122b73168586593d97bb3e31c6f6c26e979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:35 +0000
Subject: [PATCH 031/113] fix: unit of requested points and lines in
 non-uniform Fourier transforms

---
 SciDataTool/Functions/fft_functions.py | 58 +++++++++++++++++++-------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 8dc8908..02830ff 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -198,6 +198,41 @@ def comp_nthoctave_axis(noct, freqmin, freqmax):
 #     return values_FT
 
 
+def get_input_data_SI(axis):
+    """Returns the input data of a requested axis in the unit of the transforms
+    Parameters
+    ----------
+    axis: RequestedAxis
+        a RequestedAxis object with input data
+    Returns
+    -------
+    Vector of input data
+    """
+    if axis.unit in ["SI", axis.corr_unit]:
+        return array(axis.input_data)
+    # Import here to avoid circular import
+    from SciDataTool.Functions.conversions import convert
+
+    return convert(array(axis.input_data), axis.unit, axis.corr_unit)
+
+
+def get_input_freqs(axis):
+    """Returns the frequencies corresponding to the input data of a Fourier axis
+    Parameters
+    ----------
+    axis: RequestedAxis
+        a RequestedAxis object with input data
+    Returns
+    -------
+    Vector of frequencies
+    """
+    freqs = get_input_data_SI(axis)
+    # Convert wavenumbers to frequencies if needed
+    if axis.name != "freqs":
+        freqs = freqs / (2 * pi)
+    return freqs
+
+
 def comp_fftn(values, axes_list, is_real=True):
     """Computes the Fourier Transform
     Parameters
@@ -225,7 +260,7 @@ def comp_fftn(values, axes_list, is_real=True):
                     is_non_uniform = True
                     axes_dict_non_uniform[axis.index] = [
                         axis.corr_values,
-                        axis.input_data,
+                        get_input_freqs(axis),
                     ]
                     # Keep only interpolation data
                     axis.values = axis.input_data
@@ -246,15 +281,9 @@ def comp_fftn(values, axes_list, is_real=True):
                     ).all()
                 ):
                     is_non_uniform = True
-                    # Convert wavenumbers to frequencies if needed
-                    frequencies = (
-                        axis.input_data
-                        if axis.name == "freqs"
-                        else axis.input_data / (2 * pi)
-                    )
                     axes_dict_non_uniform[axis.index] = [
                         axis.corr_values,
-                        frequencies,
+                        get_input_freqs(axis),
                     ]
                     # Keep only interpolation data
                     axis.values = axis.input_data
@@ -363,7 +392,8 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
     for axis in axes_requ_list:
         if axis.transform == "ifft":
             if axis.input_data is not None and len(axis.input_data) > 1:
-                if not is_uniform(axis.input_data):
+                input_data = get_input_data_SI(axis)
+                if not is_uniform(input_data):
                     # Data is at least non uniform in "space"
                     corr_values = (
                         axis.corr_values
@@ -371,7 +401,7 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                         else axis.corr_values / (2 * pi)
                     )
                     axes_dict_non_uniform[axis.index] = [
-                        axis.input_data,
+                        input_data,
                         corr_values,
                     ]
                     # Keep only interpolation data
@@ -388,9 +418,7 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                         axis_obj = axes_list[
                             [axis.name for axis in axes_list].index(fft_dict[axis.name])
                         ]
-                    freqs = comp_fft_freqs(
-                        axis.input_data, axis.name == "time", is_real
-                    )
+                    freqs = comp_fft_freqs(input_data, axis.name == "time", is_real)
                     if "period" in axis_obj.symmetries:
                         if axis.name != "time":
                             freqs = [f * axis_obj.symmetries["period"] for f in freqs]
@@ -406,7 +434,7 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                             axis.corr_values, axis.name == "angle", is_real
                         )
                         if len(grid) > 1:
-                            steps = axis.input_data / (grid[1] - grid[0])
+                            steps = input_data / (grid[1] - grid[0])
                             is_on_grid = allclose(
                                 steps, around(steps), rtol=0, atol=1e-5
                             )
@@ -444,7 +472,7 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                             else axis.corr_values / (2 * pi)
                         )
                         axes_dict_non_uniform[axis.index] = [
-                            axis.input_data,
+                            input_data,
                             frequencies,
                         ]
                         # Keep only interpolation data
-- 
2.43.0


From af3b3adfdfc8d272dd79d4c610c7d2cd6a6fe69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:06 +0000
Subject: [PATCH 032/113] fix: real FFT combined with non-uniform Fourier
 transform of another axis

---
 SciDataTool/Functions/fft_functions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 02830ff..2ab5558 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -289,10 +289,6 @@ def comp_fftn(values, axes_list, is_real=True):
                     axis.values = axis.input_data
                     axis.input_data = None
 
-    # Apply DFT on non-uniform axes
-    if is_non_uniform:
-        values = nudftn(values, axes_dict=axes_dict_non_uniform)
-
     # Find other fft axes
     for axis in axes_list:
         if axis.index not in axes_dict_non_uniform:
@@ -345,6 +341,11 @@ def comp_fftn(values, axes_list, is_real=True):
             values_FT2 = fftshift(values_FT, axes=axes) / size
     else:
         values_FT2 = values
+
+    # Apply DFT on non-uniform axes (after FFT which requires real values)
+    if is_non_uniform:
+        values_FT2 = nudftn(values_FT2, axes_dict=axes_dict_non_uniform)
+
     return values_FT2
 
 
-- 
2.43.0


From a70c8dffad6d6a25f26449122e157c191d5998b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:11 +0000
Subject: [PATCH 033/113] fix: bounds requested on normalized axes

---
 SciDataTool/Functions/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 44775bb..71f0848 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -34,9 +34,9 @@ def read_input_strings(args, axis_data):
             elif "[" in elems[1]:
                 unit = elems[1].split("[")[0]
             elif ">" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split(">")[0]
             elif "<" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split("<")[0]
             else:
                 unit = elems[1]
             name = elems[0]
-- 
2.43.0


From 3372846d69f5e620c510ab70630ef02cbf902015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:11 +0000
Subject: [PATCH 034/113] fix: normalizations given as numpy numbers

---
 SciDataTool/Methods/Data/_set_normalizations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SciDataTool/Methods/Data/_set_normalizations.py b/SciDataTool/Methods/Data/_set_normalizations.py
index cfb722f..506c639 100644
--- a/SciDataTool/Methods/Data/_set_normalizations.py
+++ b/SciDataTool/Methods/Data/_set_normalizations.py
@@ -16,6 +16,8 @@ def _set_normalizations(self, value):
                 Norm_ref = import_class(
                     "SciDataTool.Classes", "Norm_ref", "normalizations"
                 )
+                if not isinstance(obj, (float, int)):
+                    obj = obj.item()  # Convert numpy scalar
                 value[key] = Norm_ref(ref=obj)
             elif isinstance(obj, (ndarray, list)):
                 Norm_vector = import_class(
-- 
2.43.0


From 2e2113abe3583b9a693a994145d5ceaf6702f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:11 +0000
Subject: [PATCH 035/113] fix: normalization vector on one period of
 antiperiodic axes

---
 SciDataTool/Methods/Data1D/get_values.py       | 9 +++++++++
 SciDataTool/Methods/DataLinspace/get_values.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index ce3acbf..9a94d37 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -69,6 +69,15 @@ def get_values(
             symmetries = self.symmetries.copy()
             symmetries["antiperiod"] = 2
             values = rebuild_symmetries_axis(values, symmetries)
+            if (
+                normalization is not None
+                and normalization in self.normalizations
+                and isinstance(self.normalizations[normalization], Norm_vector)
+            ):
+                norm_vector = self.normalizations[normalization].copy()
+                norm_vector.vector = rebuild_symmetries_axis(
+                    norm_vector.vector, symmetries
+                )
         elif "period" in self.symmetries:
             pass
         else:
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index 4c3a5a2..2793d46 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -82,6 +82,15 @@ def get_values(
             symmetries = self.symmetries.copy()
             symmetries["antiperiod"] = 2
             values = rebuild_symmetries_axis(values, symmetries)
+            if (
+                normalization is not None
+                and normalization in self.normalizations
+                and isinstance(self.normalizations[normalization], Norm_vector)
+            ):
+                norm_vector = self.normalizations[normalization].copy()
+                norm_vector.vector = rebuild_symmetries_axis(
+                    norm_vector.vector, symmetries
+                )
         elif "period" in self.symmetries:
             pass
         else:
-- 
2.43.0


From ee27b2726da882cb4c2a2fedc5ebe7354254f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:49 +0000
Subject: [PATCH 036/113] fix: non-linear normalization of the wavenumbers of
 periodic axes

---
 SciDataTool/Methods/Data1D/get_values.py       | 6 ++++++
 SciDataTool/Methods/DataLinspace/get_values.py | 6 ++++++
 SciDataTool/Methods/RequestedAxis/get_axis.py  | 8 --------
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index 9a94d37..4faa4d3 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -100,6 +100,12 @@ def get_values(
         module = import_module("SciDataTool.Functions.conversions")
         func = getattr(module, operation)  # Conversion function
         values = array(func(values, is_real=is_real))
+        # Take periodicity into account (before normalization)
+        if operation == "angle_to_wavenumber":
+            if "period" in self.symmetries:
+                values = values * self.symmetries["period"]
+            elif "antiperiod" in self.symmetries:
+                values = values * self.symmetries["antiperiod"] / 2
         if is_full and (self.name == "freqs" or self.name == "wavenumber"):
             if "period" in self.symmetries:
                 if self.name != "time":
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index 2793d46..6417ad3 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -113,6 +113,12 @@ def get_values(
         module = import_module("SciDataTool.Functions.conversions")
         func = getattr(module, operation)  # Conversion function
         values = array(func(values, is_real=is_real))
+        # Take periodicity into account (before normalization)
+        if operation == "angle_to_wavenumber":
+            if "period" in self.symmetries:
+                values = values * self.symmetries["period"]
+            elif "antiperiod" in self.symmetries:
+                values = values * self.symmetries["antiperiod"] / 2
         if is_full and (self.name == "freqs" or self.name == "wavenumber"):
             if "period" in self.symmetries:
                 if self.name != "time":
diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index ca9b770..844c085 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -185,14 +185,6 @@ def get_axis(self, axis, is_real):
             corr_unit=self.corr_unit,
         )
 
-        # Rebuild symmetries in fft case
-        if self.transform == "fft":
-            if "period" in axis.symmetries:
-                if axis.name != "time":
-                    values = values * axis.symmetries["period"]
-            elif "antiperiod" in axis.symmetries:
-                if axis.name != "time":
-                    values = values * axis.symmetries["antiperiod"] / 2
         # Rebuild symmetries in ifft case
         if self.transform == "ifft":
             if self.extension not in [
-- 
2.43.0


From 2b60dff5311402304ea6e1c83b937b27defd4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:04 +0000
Subject: [PATCH 037/113] fix: refuse field normalizations defined for another
 unit

---
 SciDataTool/Methods/DataND/_convert.py            | 2 ++
 SciDataTool/Methods/DataND/get_magnitude_along.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index 85f2d56..6a2a612 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -78,6 +78,8 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                     "dBA conversion only available for fft with frequencies"
                 )
     elif unit in self.normalizations:
+        if self.normalizations[unit].unit not in ["SI", self.unit]:
+            raise NormError("Normalization is not available in this unit")
         values = self.normalizations.get(unit).normalize(values)
     else:
         values = convert_unit(values, self.unit, unit)
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 22619e2..ac1455d 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -280,6 +280,8 @@ def get_magnitude_along(
                 )
 
         elif unit in self.normalizations:
+            if self.normalizations[unit].unit not in ["SI", self.unit]:
+                raise NormError("Normalization is not available in this unit")
             values = self.normalizations.get(unit).normalize(values)
         else:
             values = convert(values, self.unit, unit)
-- 
2.43.0


From 9c19a0e250143ec3d754704ca7124f16eda32a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:26 +0000
Subject: [PATCH 038/113] fix: use the modulus of the values to compute levels
 in dBA in get_along

---
 SciDataTool/Methods/DataND/_convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index 6a2a612..bcaa2c0 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -42,6 +42,7 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         ref_value = 1.0
         if "ref" in self.normalizations:
             ref_value *= self.normalizations["ref"].ref
+        values = np.abs(values)
         is_match = False
         for axis in axes_list:
             if axis.name == "freqs" or axis.corr_name == "freqs":
-- 
2.43.0


From f5da3529ac76d96978e3f30924132793972e9346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:48 +0000
Subject: [PATCH 039/113] fix: compute the A-weighting of frequencies stored in
 another unit than Hz

---
 SciDataTool/Functions/conversions.py | 30 +++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 468da9a..60c9b42 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -314,19 +314,25 @@ def get_physical_freqs(axis_requested, axis, is_real=True):
     Vector of frequencies
     """
     if axis_requested.unit in ["SI", axis_requested.corr_unit]:
-        return array(axis_requested.values)
-    freqs = axis.get_values(
-        is_oneperiod=axis_requested.transform == "fft",
-        operation=axis_requested.operation,
-        is_real=is_real,
-    )
-    if axis_requested.indices is not None:
-        freqs = freqs[axis_requested.indices]
-    if len(freqs) != len(axis_requested.values):
-        # User-input frequencies
-        freqs = convert(
-            array(axis_requested.values), axis_requested.unit, axis_requested.corr_unit
+        freqs = array(axis_requested.values)
+    else:
+        freqs = axis.get_values(
+            is_oneperiod=axis_requested.transform == "fft",
+            operation=axis_requested.operation,
+            is_real=is_real,
         )
+        if axis_requested.indices is not None:
+            freqs = freqs[axis_requested.indices]
+        if len(freqs) != len(axis_requested.values):
+            # User-input frequencies
+            freqs = convert(
+                array(axis_requested.values),
+                axis_requested.unit,
+                axis_requested.corr_unit,
+            )
+    if axis.name == axis_requested.name and axis.unit in ["kHz", "MHz", "mHz"]:
+        # Frequencies stored in another unit than Hz
+        freqs = convert(freqs, axis.unit, "Hz")
     return freqs
 
 
-- 
2.43.0


From 1fa41ae6962e9af2087a70bdc3d19edd28357e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:33 +0000
Subject: [PATCH 040/113] fix: compute levels in dBA of speed and order data
 for every axis order and slice

---
 SciDataTool/Functions/conversions.py          | 50 +++++++++++++++++++
 SciDataTool/Methods/DataND/_convert.py        | 15 +++---
 .../Methods/DataND/get_magnitude_along.py     | 15 +++---
 3 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 60c9b42..f3c76fa 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -25,6 +25,8 @@ from numpy import (
     argwhere,
     array,
     take,
+    apply_along_axis,
+    moveaxis,
     zeros,
     floor,
     ones,
@@ -357,6 +359,54 @@ def to_dBA(values, freqs, unit, ref_value=1.0):
     return dB_to_dBA(values, freqs)
 
 
+def order_to_dBA(values, freqs, axes, axes_list, unit, ref_value=1.0):
+    """Converts values into dBA for data depending on speed and order
+
+    Parameters
+    ----------
+    values: array
+        Values of the field to convert (one dimension for each axis of the field)
+    freqs: array
+        Frequencies for each speed and order
+    axes: list
+        Axes of the field
+    axes_list: list
+        List of the requested axes
+    unit: str
+        Unit
+    ref_value: float
+        Reference value
+    Returns
+    -------
+    Values of the field in dBA
+    """
+    names = [axis.name for axis in axes]
+    index_order = names.index("order")
+    if "speed" in names:
+        index_speed = names.index("speed")
+    else:
+        for i, axis in enumerate(axes):
+            if "speed" in axis.normalizations:
+                index_speed = i
+
+    # Frequencies of the requested speeds and orders
+    for i, index in enumerate([index_speed, index_order]):
+        indices = [0]
+        for axis in axes_list:
+            if axis.index == index:
+                indices = axis.indices
+        if indices is not None:
+            freqs = freqs.take(indices, axis=i)
+
+    # Speed and order are flattened together whatever their positions
+    values = moveaxis(values, [index_speed, index_order], [0, 1])
+    shape = values.shape
+    values = values.reshape((-1,) + shape[2:])
+    values = apply_along_axis(to_dBA, 0, values, freqs.ravel("C"), unit, ref_value)
+    values = values.reshape(shape)
+    return moveaxis(values, [0, 1], [index_speed, index_order])
+
+
 def dB_to_dBA(values, freqs, noct=None):
     """Converts values from dB into dBA (requires frequency vector)
 
diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index bcaa2c0..aaa9923 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -4,6 +4,7 @@ from SciDataTool.Functions import NormError, UnitError
 from SciDataTool.Functions.conversions import (
     convert as convert_unit,
     get_physical_freqs,
+    order_to_dBA,
     to_dB,
     to_dBA,
 )
@@ -66,14 +67,14 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         if not is_match:
             axis_names = [axis.name for axis in self.axes]
             if "speed" in axis_names and "order" in axis_names:
-                freqs = self._get_freqs()
-                freqs = freqs.ravel("C")
-                shape = values.shape
-                values = values.reshape(freqs.shape + shape[2:])
-                values = np.apply_along_axis(
-                    to_dBA, 0, values, freqs, self.unit, ref_value
+                values = order_to_dBA(
+                    values,
+                    self._get_freqs(),
+                    self.axes,
+                    axes_list,
+                    self.unit,
+                    ref_value,
                 )
-                values = values.reshape(shape)
             else:
                 raise UnitError(
                     "dBA conversion only available for fft with frequencies"
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index ac1455d..2bf0055 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -2,6 +2,7 @@ from SciDataTool.Functions import AxisError, NormError, UnitError
 from SciDataTool.Functions.conversions import (
     convert,
     get_physical_freqs,
+    order_to_dBA,
     to_dB,
     to_dBA,
     to_noct,
@@ -266,14 +267,14 @@ def get_magnitude_along(
                     to_dBA, index, values, freqs, self.unit, ref_value
                 )
             elif "order" in return_dict:
-                freqs = self._get_freqs()
-                freqs = freqs.ravel("C")
-                shape = values.shape
-                values = values.reshape(freqs.shape + shape[2:])
-                values = apply_along_axis(
-                    to_dBA, 0, values, freqs, self.unit, ref_value
+                values = order_to_dBA(
+                    values,
+                    self._get_freqs(),
+                    self.axes,
+                    return_dict["axes_list"],
+                    self.unit,
+                    ref_value,
                 )
-                values = values.reshape(shape)
             else:
                 raise UnitError(
                     "dBA conversion only available for fft with frequencies"
-- 
2.43.0


From f7f299cb441397058e148faa27cbaea4a633690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:14 +0000
Subject: [PATCH 041/113] fix: compute the 1/n octave bands inside the
 frequency range for any n

---
 SciDataTool/Functions/fft_functions.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 2ab5558..24ec812 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -159,19 +159,15 @@ def comp_nthoctave_axis(noct, freqmin, freqmax):
         f_oct = [f for f in table if (f >= freqmin and f <= freqmax)]
     else:
         f0 = 1000
-        f_oct = [f0]
-        i = 1
-        while f_oct[-1] <= freqmax:
-            f = f0 * 2.0 ** (i / noct)
-            f_oct.append(0.5 * ceil(2.0 * f))
+        f_oct = []
+        # Start from the lowest center frequency (rounded to 0.5 Hz)
+        i = -11 * noct
+        f = 0.5 * ceil(2.0 * f0 * 2.0 ** (i / noct))
+        while f <= freqmax:
+            if f >= freqmin and f not in f_oct:
+                f_oct.append(f)
             i = i + 1
-        f_oct = f_oct[:-1]
-        i = -1
-        while f_oct[0] > freqmin:
-            f = f0 * 2.0 ** (i / noct)
-            f_oct = [0.5 * ceil(2.0 * f)] + f_oct
-            i = i - 1
-        f_oct = f_oct[1:]
+            f = 0.5 * ceil(2.0 * f0 * 2.0 ** (i / noct))
     return f_oct
 
 
-- 
2.43.0


From d795693523d5de727a9c7e5c477a440019527fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:00 +0000
Subject: [PATCH 042/113] fix: compute the A-weighting of integer frequencies

---
 SciDataTool/Functions/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index f3c76fa..798883c 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -494,7 +494,7 @@ def dB_to_dBA(values, freqs, noct=None):
         mask = argwhere(freqs in freqs_ref)
         Aweight = take(Aweight, mask)
     else:
-        freq2 = square(freqs)
+        freq2 = square(array(freqs, dtype=float))
         freq2[freq2 == 0] = nan
         RA = (
             12200.0 ** 2
-- 
2.43.0


From 758b9c4cec0529afa5ae128c0a48085a6e01375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:27 +0000
Subject: [PATCH 043/113] fix: return the inverse index and counts of
 unique_tol in the order of the unique values

---
 SciDataTool/Functions/set_routines.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/SciDataTool/Functions/set_routines.py b/SciDataTool/Functions/set_routines.py
index dc6ec5c..a5b0f40 100644
--- a/SciDataTool/Functions/set_routines.py
+++ b/SciDataTool/Functions/set_routines.py
@@ -97,24 +97,22 @@ def unique_tol(
     res_tuple = np.unique(
         np.round(a / tol),
         return_index=True,
-        return_inverse=return_inverse,
-        return_counts=return_counts,
+        return_inverse=True,
+        return_counts=True,
         axis=axis,
     )
 
+    _, Ia, Ib, count0 = res_tuple
+
     if is_stable:
-        Ia = np.sort(res_tuple[1])
-    else:
-        Ia = res_tuple[1]
+        # Sort unique values by order of appearance
+        Istable = np.argsort(Ia)
+        Ia = Ia[Istable]
+        Ib = np.argsort(Istable)[Ib]
+        count0 = count0[Istable]
 
     b = a[Ia]
 
-    if return_inverse:
-        Ib = res_tuple[2]
-
-    if return_counts:
-        count0 = res_tuple[3]
-
     if return_index and return_inverse and return_counts:
         return b, Ia, Ib, count0
     elif return_index and return_inverse:
-- 
2.43.0


From e74d10a2e8f195bc64c962e7353f206e6e90e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:27 +0000
Subject: [PATCH 044/113] fix: return the unique values along the requested
 axis in unique_tol

---
 SciDataTool/Functions/set_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/set_routines.py b/SciDataTool/Functions/set_routines.py
index a5b0f40..9d61644 100644
--- a/SciDataTool/Functions/set_routines.py
+++ b/SciDataTool/Functions/set_routines.py
@@ -111,7 +111,7 @@ def unique_tol(
         Ib = np.argsort(Istable)[Ib]
         count0 = count0[Istable]
 
-    b = a[Ia]
+    b = np.take(a, Ia, axis=axis)
 
     if return_index and return_inverse and return_counts:
         return b, Ia, Ib, count0
-- 
2.43.0


From 6a8d17d4e2da5798dfd68c260f2922defd6d2093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:27 +0000
Subject: [PATCH 045/113] fix: find values equal up to rounding errors in
 intersect1d_tol

---
 SciDataTool/Functions/set_routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/set_routines.py b/SciDataTool/Functions/set_routines.py
index 9d61644..7e717d6 100644
--- a/SciDataTool/Functions/set_routines.py
+++ b/SciDataTool/Functions/set_routines.py
@@ -165,8 +165,8 @@ def intersect1d_tol(
         tol = get_relative_tolerance(ar1, tol)
 
     _, Ia, Ib = np.intersect1d(
-        np.floor(ar1 / tol),
-        np.floor(ar2 / tol),
+        np.round(ar1 / tol),
+        np.round(ar2 / tol),
         assume_unique=assume_unique,
         return_indices=True,
     )
-- 
2.43.0


From 23f74ca64fbdff6cd60561860fca0a5a65f74bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:34 +0000
Subject: [PATCH 046/113] fix: sum and convolve spectra whose frequencies are a
 linspace

---
 SciDataTool/Methods/DataFreq/conv.py | 16 ++++++++++++++--
 SciDataTool/Methods/DataFreq/sum.py  | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataFreq/conv.py b/SciDataTool/Methods/DataFreq/conv.py
index 52769c5..5fe85bb 100644
--- a/SciDataTool/Methods/DataFreq/conv.py
+++ b/SciDataTool/Methods/DataFreq/conv.py
@@ -43,6 +43,10 @@ def conv(
         DataFreq object resulting from convolution of both DataFreq objects
     """
 
+    # Dynamic import to avoid loop
+    module = __import__("SciDataTool.Classes.Data1D", fromlist=["Data1D"])
+    Data1D = getattr(module, "Data1D")
+
     if not isinstance(other, type(self)):
         raise Exception("other is not a DataFreq object")
 
@@ -85,8 +89,16 @@ def conv(
     amp = get_conv_amplitudes(self.values, other.values, I0a, I0b, I1, I2)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    Freqs = Data1D(
+        name=self.axes[0].name,
+        unit=self.axes[0].unit,
+        symbol=self.axes[0].symbol,
+        symmetries=self.axes[0].symmetries.copy(),
+        normalizations={
+            key: norm.copy() for key, norm in self.axes[0].normalizations.items()
+        },
+        values=freqs_un,
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
diff --git a/SciDataTool/Methods/DataFreq/sum.py b/SciDataTool/Methods/DataFreq/sum.py
index 6ed8837..f737114 100644
--- a/SciDataTool/Methods/DataFreq/sum.py
+++ b/SciDataTool/Methods/DataFreq/sum.py
@@ -37,6 +37,10 @@ def sum(
         DataFreq object resulting from summing both DataFreq objects
     """
 
+    # Dynamic import to avoid loop
+    module = __import__("SciDataTool.Classes.Data1D", fromlist=["Data1D"])
+    Data1D = getattr(module, "Data1D")
+
     if not isinstance(other, type(self)):
         raise Exception("other is not a DataFreq object")
 
@@ -77,8 +81,16 @@ def sum(
     amp = get_sum_amplitudes(self.values, other.values, I0b)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    Freqs = Data1D(
+        name=self.axes[0].name,
+        unit=self.axes[0].unit,
+        symbol=self.axes[0].symbol,
+        symmetries=self.axes[0].symmetries.copy(),
+        normalizations={
+            key: norm.copy() for key, norm in self.axes[0].normalizations.items()
+        },
+        values=freqs_un,
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
-- 
2.43.0


From 2459835c6f8293790ddbe1a2775c225416793eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:34 +0000
Subject: [PATCH 047/113] fix: sum and convolve spectra of single precision
 complex values

---
 SciDataTool/Functions/sum_convolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/sum_convolution.py b/SciDataTool/Functions/sum_convolution.py
index a3b94ca..aba2c78 100644
--- a/SciDataTool/Functions/sum_convolution.py
+++ b/SciDataTool/Functions/sum_convolution.py
@@ -131,7 +131,7 @@ def get_conv_amplitudes(amp1, amp2, I0a, I0b, I1, I2):
         amp_full = np.outer(amp1_1, amp2_2).ravel("F")[I0a] / 2
 
     # Sum all contributions which have the same index
-    if amp_full.dtype == complex:
+    if np.iscomplexobj(amp_full):
         amp = np.bincount(I1, weights=amp_full.real) + 1j * np.bincount(
             I1, weights=amp_full.imag
         )
@@ -203,7 +203,7 @@ def get_sum_amplitudes(amp1, amp2, I0b):
     amp_full = np.concatenate((amp1, amp2), axis=0)
 
     # Sum all contributions which have the same orders and wavenumber
-    if amp_full.dtype == complex:
+    if np.iscomplexobj(amp_full):
         amp = np.bincount(I0b, weights=amp_full.real) + 1j * np.bincount(
             I0b, weights=amp_full.imag
         )
-- 
2.43.0


From 0571927243d4be2da66f27a49ba58a3b55d62879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:35 +0000
Subject: [PATCH 048/113] fix: do not mix up unit prefixes and units in the
 unit of integrals and derivatives

---
 SciDataTool/Functions/conversions.py | 158 +++++++++++++--------------
 1 file changed, 73 insertions(+), 85 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 798883c..e18f037 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -110,100 +110,88 @@ def get_dim_prefix(unit_str):
     return (dim, prefix)
 
 
-def get_unit_derivate(unit_str, axis_unit):
+def split_unit(unit_str, axis_unit):
+    """Splits a product of units into a list of [unit, power] (as few units as possible)
+    Parameters
+    ----------
+    unit_str: str
+        Product of units (without denominator)
+    axis_unit: str
+        Unit of the axis, not to be read with a prefix that is also a unit (ms = m * s)
+    Returns
+    -------
+    List of [unit, power], None if unit_str is not a product of known units
+    """
+    if unit_str == "":
+        return []
+    units_list = None
+    symbols = [symbol[0] for symbol in unit_symbols]
+    for prefix in unit_prefixes:
+        for symbol in symbols:
+            unit = prefix + symbol
+            if (
+                unit_str.startswith(unit)
+                and (symbol != axis_unit or prefix == symbol or prefix not in symbols)
+            ):
+                # Read power
+                remainder = unit_str[len(unit) :]
+                p_str = remainder[: len(remainder) - len(remainder.lstrip("0123456789"))]
+                next_units = split_unit(remainder[len(p_str) :], axis_unit)
+                if next_units is not None and (
+                    units_list is None or len(next_units) + 1 < len(units_list)
+                ):
+                    units_list = [[unit, int(p_str) if p_str else 1]] + next_units
+    return units_list
+
+
+def multiply_unit(unit_str, axis_unit, power):
+    """Multiplies a unit by the unit of an axis
+    Parameters
+    ----------
+    unit_str: str
+        Unit of the field
+    axis_unit: str
+        Unit of the axis
+    power: int
+        1 to multiply, -1 to divide
+    Returns
+    -------
+    Resulting unit (str)
+    """
     unit_str = unit_str.replace("*", "").replace(" ", "").replace("^", "")
     if axis_unit == "Hz":
         axis_unit = "s"
     if axis_unit == "rad":
         axis_unit = "m"
-    p = 0
-    if "/" in unit_str:
-        unit_num = unit_str.split("/")[0]
-        unit_denom = unit_str.split("/")[1]
-    else:
-        unit_num = unit_str
-        unit_denom = ""
-    if axis_unit in unit_num:
-        p = 1
-        if unit_num.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_num.rsplit(axis_unit, 1)[1])
-        p_new = p - 1
-        # Case axis_unit must be withdrawn
-        if p_new == 0:
-            unit_str = unit_str.replace(axis_unit, "")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    elif axis_unit in unit_denom:
-        p = 1
-        if unit_denom.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_denom.rsplit(axis_unit, 1)[1])
-        p_new = p + 1
-        # Case p was 1
-        if p_new == 2:
-            unit_str = unit_str.replace(axis_unit, axis_unit + "2")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
+
+    # Units of the numerator and of the denominator
+    fraction = []
+    for part in (unit_str.split("/") + [""])[:2]:
+        units_list = split_unit(part, axis_unit)
+        fraction.append([[part, 1]] if units_list is None else units_list)
+
+    # Change power of axis_unit
+    for units_list, sign in zip(fraction, [1, -1]):
+        index = [i for i, unit in enumerate(units_list) if unit[0] == axis_unit]
+        if len(index) > 0:
+            units_list[index[0]][1] += sign * power
+            break
     else:
-        # Case axis_unit was not in unit_str
-        if unit_denom != "":
-            unit_str += axis_unit
-        else:
-            unit_str += "/" + axis_unit
-    return unit_str
+        fraction[0 if power > 0 else 1].append([axis_unit, 1])
+
+    num, denom = [
+        "".join([u + (str(p) if p > 1 else "") for u, p in units_list if p != 0])
+        for units_list in fraction
+    ]
+    return num if denom == "" else num + "/" + denom
+
+
+def get_unit_derivate(unit_str, axis_unit):
+    return multiply_unit(unit_str, axis_unit, -1)
 
 
 def get_unit_integrate(unit_str, axis_unit):
-    unit_str = unit_str.replace("*", "").replace(" ", "").replace("^", "")
-    if axis_unit == "Hz":
-        axis_unit = "s"
-    if axis_unit == "rad":
-        axis_unit = "m"
-    p = 0
-    if "/" in unit_str:
-        unit_num = unit_str.split("/")[0]
-        unit_denom = unit_str.split("/")[1]
-    else:
-        unit_num = unit_str
-        unit_denom = ""
-    if axis_unit in unit_num:
-        p = 1
-        if unit_num.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_num.rsplit(axis_unit, 1)[1])
-        p_new = p + 1
-        # Case p was 1
-        if p_new == 2:
-            unit_str = unit_str.replace(axis_unit, axis_unit + "2")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    elif axis_unit in unit_denom:
-        p = 1
-        if unit_denom.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_denom.rsplit(axis_unit, 1)[1])
-        p_new = p - 1
-        # Case axis_unit must be withdrawn
-        if p_new == 0:
-            unit_denom = unit_denom.replace(axis_unit, "")
-            if unit_denom == "":
-                unit_str = unit_num
-            else:
-                unit_str = unit_str.replace(axis_unit, "")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    else:
-        # Case axis_unit was not in unit_str
-        if unit_denom != "":
-            unit_str = unit_num + axis_unit + "/" + unit_denom
-        else:
-            unit_str += axis_unit
-    return unit_str
+    return multiply_unit(unit_str, axis_unit, 1)
 
 
 def convert(values, unit1, unit2):
-- 
2.43.0


From fdf902e65bc9dc41310eaa74562cc4cf07505aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:41 +0000
Subject: [PATCH 049/113] fix: use the requested axis unit in the unit of
 integrals and derivatives

---
 SciDataTool/Methods/DataND/get_data_along.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index 8c2c3ea..b1af025 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -116,10 +116,17 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         if unit == "SI" or unit in self.normalizations:
             unit = self.unit
         for axis in axes_list:
+            # Axis may have been converted to another unit
+            ax_unit = axis.corr_unit
+            if (
+                axis.unit != "SI"
+                and axis.unit not in self.axes[axis.index].normalizations
+            ):
+                ax_unit = axis.unit
             if axis.extension in ["antiderivate", "integrate", "integrate_local"]:
-                unit = get_unit_integrate(unit, axis.corr_unit)
+                unit = get_unit_integrate(unit, ax_unit)
             elif axis.extension == "derivate":
-                unit = get_unit_derivate(unit, axis.corr_unit)
+                unit = get_unit_derivate(unit, ax_unit)
 
     return DataClass(
         name=self.name,
-- 
2.43.0


From a53156dc53366851dc46c9c35e9bf42c61a143fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:16 +0000
Subject: [PATCH 050/113] fix: do not slice other axes twice in levels of speed
 and order data

---
 .../Methods/DataND/get_magnitude_along.py     | 36 +++++--------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 2bf0055..bd2fc9a 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -135,38 +135,18 @@ def get_magnitude_along(
                     is_squeeze=is_squeeze,
                     is_sum=False,
                 )
-            elif index_speed is None:  # Sum on order axis
-                if "[" in args[-1]:
-                    new_args[-1] = args[-1].split("[")[0]
-                data = self.get_data_along(
-                    *new_args, axis_data=axis_data, unit=unit
-                )  # Extract first along order axis
-                return data.get_magnitude_along(
-                    *[arg_speed, args[index_order]] + args[2:],
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                    corr_unit=self.unit,
-                )  # Then sum on order axis
-            elif index_order is None:  # Sum on speed axis
-                data = self.get_data_along(
-                    *new_args, axis_data=axis_data, unit=unit
-                )  # Extract first along speed axis
-                return data.get_magnitude_along(
-                    *args,
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                    corr_unit=self.unit,
-                )  # Then sum on speed axis
-            else:  # Sum on speed and order axes
+            else:
                 data = self.get_data_along(
                     *new_args, axis_data=axis_data, unit=unit
                 )  # Extract first along speed and order axes
+                # Requests on speed and order axes (other axes already extracted)
+                args_dict = {
+                    new_args[index].split("->")[0]: args[index]
+                    for index in [index_speed, index_order]
+                    if index is not None
+                }
                 return data.get_magnitude_along(
-                    *[args[index_speed], args[index_order]],
+                    *[args_dict.get(axis.name, axis.name) for axis in data.axes],
                     axis_data=axis_data,
                     unit=unit,
                     is_squeeze=is_squeeze,
-- 
2.43.0


From f01320cbcb8c0d0b63528ff0aa22e92207d011eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:32 +0000
Subject: [PATCH 051/113] fix: change referential of waveforms with axes listed
 by values

---
 SciDataTool/Methods/DataND/change_referential.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index d23c64f..9449ae3 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -187,13 +187,13 @@ def change_referential(
 
             if axis.name == "time" and is_waveform:
                 axis_new = axis.copy()
-                axis_new.symmetries = sym_t_new
-                axis_new.number = time_new.size
+                axis_new.symmetries = sym_t_new.copy()
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = time_new.size
                     axis_new.final = time_new[-1]
                     axis_new.include_endpoint = True
                 else:
-                    axis_new.values = time0
+                    axis_new.values = time_new
 
             elif axis.name == "angle" and is_waveform:
                 axis_new = axis.copy()
@@ -201,8 +201,8 @@ def change_referential(
                     axis_new.symmetries = {"antiperiod": int(2 * per_a)}
                 else:
                     axis_new.symmetries = {"period": per_a}
-                axis_new.number = angle_new.size
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = angle_new.size
                     axis_new.final = angle_new[-1]
                     axis_new.include_endpoint = True
                 else:
-- 
2.43.0


From 39edf62c3f4edd043245f248f2a4f4e82b4e36ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:32 +0000
Subject: [PATCH 052/113] fix: keep the stored part of periodic axes when
 changing referential

---
 SciDataTool/Methods/DataND/change_referential.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index 9449ae3..754031f 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -101,6 +101,9 @@ def change_referential(
                     arg_list.append("wavenumber")
             elif axis.name == "z" and isinstance(axis, DataPattern):
                 arg_list.append("z[smallestpattern]")
+            elif "period" in axis.symmetries or "antiperiod" in axis.symmetries:
+                # Other axes are stored on their smallest period
+                arg_list.append(axis.name + "[smallestperiod]")
             else:
                 arg_list.append(axis.name)
 
-- 
2.43.0


From d62f4a50759892b630835fe64f188fa310224e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:32 +0000
Subject: [PATCH 053/113] fix: keep harmonics moved to negative frequencies
 when changing referential of a spectrum

---
 SciDataTool/Functions/change_referential.py   | 42 +++++++++++++++++++
 .../Methods/DataND/change_referential.py      | 18 +++++---
 2 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Functions/change_referential.py b/SciDataTool/Functions/change_referential.py
index e857f54..b50ed15 100644
--- a/SciDataTool/Functions/change_referential.py
+++ b/SciDataTool/Functions/change_referential.py
@@ -132,6 +132,48 @@ def change_referential_spectrum(
     return spectrum_new, freqs_new, I1, Irf_un
 
 
+def mirror_spectrum(spectrum, freqs, wavenumbers_circ):
+    """Mirror the spectrum of a real field stored for positive frequencies
+    to negative frequencies and opposite wavenumbers.
+
+    Parameters
+    ----------
+    spectrum : ndarray
+        spectrum with freqs/wavenumbers_circ as two first axes
+    freqs : ndarray
+        positive frequencies vector
+    wavenumbers_circ : ndarray
+        circumferential wavenumbers vector
+
+    Returns
+    -------
+    spectrum : ndarray
+        spectrum in four quadrants
+    freqs : ndarray
+        frequencies vector including negative frequencies
+    wavenumbers_circ : ndarray
+        circumferential wavenumbers vector including opposite wavenumbers
+
+    """
+    wavenumbers_sym = np.union1d(wavenumbers_circ, -wavenumbers_circ)
+
+    # Store spectrum on wavenumbers including opposite ones
+    shape = (freqs.size, wavenumbers_sym.size) + spectrum.shape[2:]
+    spectrum_pos = np.zeros(shape, dtype=complex)
+    spectrum_pos[:, np.searchsorted(wavenumbers_sym, wavenumbers_circ)] = spectrum
+
+    # Share components between positive and negative frequencies
+    Ipos = np.flatnonzero(freqs > 0)
+    spectrum_pos[Ipos] = spectrum_pos[Ipos] / 2
+    spectrum_neg = np.flip(np.conj(spectrum_pos[Ipos]), axis=(0, 1))
+
+    return (
+        np.concatenate((spectrum_neg, spectrum_pos), axis=0),
+        np.concatenate((-np.flip(freqs[Ipos]), freqs)),
+        wavenumbers_sym,
+    )
+
+
 def change_referential_waveform(
     val0,
     time0,
diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index 754031f..20e00bc 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -3,6 +3,7 @@ import numpy as np
 from SciDataTool.Functions.change_referential import (
     change_referential_spectrum,
     change_referential_waveform,
+    mirror_spectrum,
 )
 from SciDataTool.Functions.Load.import_class import import_class
 
@@ -152,6 +153,13 @@ def change_referential(
         freqs = result["freqs"]
         wavenumber = result["wavenumber"]
 
+        is_mirror = is_real and "freqs" in axes_name and np.all(freqs >= 0)
+        if is_mirror:
+            # Real spectrum is stored for positive frequencies only, mirror it to
+            # negative frequencies and opposite wavenumbers since any harmonic can be
+            # moved to the other side by the shift
+            values, freqs, wavenumber = mirror_spectrum(values, freqs, wavenumber)
+
         val_new, freqs_new, I1, Irf_un = change_referential_spectrum(
             freqs,
             wavenumber,
@@ -161,19 +169,19 @@ def change_referential(
             freqs_new=freqs_new,
             I1=I1,
             Irf_un=Irf_un,
-            is_double_f0=is_real and "freqs" in axes_name,
             atol_freq=atol_freq,
         )
 
         if is_real:
             # Adapt spectrum amplitude
-            if "time" in axes_name:
-                # Input data is DataTime, FFT has just been performed in four quadrants
+            if "time" in axes_name or is_mirror:
+                # Input data is DataTime, FFT has just been performed in four quadrants,
+                # or input data is a DataFreq which has just been mirrored,
                 # so all amplitudes are multiplied by 2 after restriction to positive frequencies
                 coeff = 2
             else:
-                # Input data is DataFreq, since data is a real spectrum no need to multiply again
-                # all harmonics by two
+                # Input data is a DataFreq in four quadrants, no need to multiply all
+                # harmonics by two
                 coeff = 1
 
             # Restrict spectrum to positive frequencies only and multiply amplitudes by coeff
-- 
2.43.0


From 52fd732d06323fe6ffda57e0cb9c432f0dcde50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:33 +0000
Subject: [PATCH 054/113] fix: only halve the zero frequency when changing
 referential

---
 SciDataTool/Methods/DataND/change_referential.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index 20e00bc..1a75a8a 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -185,10 +185,13 @@ def change_referential(
                 coeff = 1
 
             # Restrict spectrum to positive frequencies only and multiply amplitudes by coeff
-            Ifreq_pos = freqs_new >= 0
+            Ifreq_pos = freqs_new > -atol_freq
             freqs_store = freqs_new[Ifreq_pos]
             val_new = val_new[Ifreq_pos] * coeff
-            val_new[0] = val_new[0] / coeff
+            # except zero frequency if there is one
+            I0 = np.abs(freqs_store) <= atol_freq
+            freqs_store[I0] = 0
+            val_new[I0] = val_new[I0] / coeff
         else:
             freqs_store = freqs_new
 
-- 
2.43.0


From 119bebd6ff003b7a05ee38cced0cceb790245736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:48 +0000
Subject: [PATCH 055/113] fix: keep harmonics of all components when changing
 referential of a vector field

---
 .../Methods/VectorField/change_referential.py | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/change_referential.py b/SciDataTool/Methods/VectorField/change_referential.py
index 15c3f63..f26cf9b 100644
--- a/SciDataTool/Methods/VectorField/change_referential.py
+++ b/SciDataTool/Methods/VectorField/change_referential.py
@@ -36,7 +36,6 @@ def change_referential(
     freqs_new = np.array([])
     I1 = np.array([])
     Irf_un = np.array([])
-    Imask = np.array([])
     ta_in = tuple()
     ta_out = tuple()
     for comp, data in self.components.items():
@@ -66,23 +65,23 @@ def change_referential(
             atol_freq=atol_freq,
         )
 
-        # Filter harmonics that are below input absolute tolerance
-        if atol > 0 and not is_waveform:
+        # Store referential changed data in VectorField
+        vf_new.components[comp] = data_new
 
+    # Filter harmonics that are below input absolute tolerance in all components
+    if atol > 0 and not is_waveform:
+        Imask = False
+        for data_new in vf_new.components.values():
+            val = np.abs(data_new.values)
+            val_max = np.max(val)
+            while val.ndim > 1:
+                val = np.sum(val, axis=-1)
+            Imask = Imask | (val > val_max * atol)
+
+        for data_new in vf_new.components.values():
             # Copy axis not to change axis in axes_list_change
             data_new.axes = [axis.copy() for axis in data_new.axes]
-
-            # Filter harmonics that are below input absolute tolerance
-            if Imask.size == 0:
-                val = np.abs(data_new.values)
-                val_max = np.max(val)
-                while val.ndim > 1:
-                    val = np.sum(val, axis=-1)
-                Imask = val > val_max * atol
             data_new.axes[0].values = data_new.axes[0].values[Imask]
             data_new.values = data_new.values[Imask, ...]
 
-        # Store referential changed data in VectorField
-        vf_new.components[comp] = data_new
-
     return vf_new
-- 
2.43.0


From e233c5d6ba9881db6d37004d1fc1506453b29848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:26 +0000
Subject: [PATCH 056/113] fix: filter spectral leakage with zero frequency only

---
 SciDataTool/Functions/filter_spectral_leakage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/filter_spectral_leakage.py b/SciDataTool/Functions/filter_spectral_leakage.py
index 20df35c..9ba70b7 100644
--- a/SciDataTool/Functions/filter_spectral_leakage.py
+++ b/SciDataTool/Functions/filter_spectral_leakage.py
@@ -59,8 +59,7 @@ def filter_spectral_leakage(
 
         # Check frequency resolution
         df_fft = np.min(np.abs(np.diff(freqs)))
-        df_th = np.min(np.abs(np.diff(freqs_th)))
-        if df_th < df_fft:
+        if freqs_th.size > 1 and np.min(np.abs(np.diff(freqs_th))) < df_fft:
             print(
                 "FFT frequency resolution lower than theoretical frequency resolution, spectral leakage filtering maybe inaccurate"
             )
-- 
2.43.0


From 1cd9943c8fe1fdb5748b8752fa7ad564e3020363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:28 +0000
Subject: [PATCH 057/113] fix: keep the stored part of periodic axes when
 filtering spectral leakage

---
 SciDataTool/Methods/DataND/filter_spectral_leakage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index fec91a2..25fcf8a 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -69,6 +69,9 @@ def filter_spectral_leakage(
                 arg_list.append("wavenumber")
             elif axis.name == "z" and isinstance(axis, DataPattern):
                 arg_list.append("z[smallestpattern]")
+            elif "period" in axis.symmetries or "antiperiod" in axis.symmetries:
+                # Other axes are stored on their smallest period
+                arg_list.append(axis.name + "[smallestperiod]")
             else:
                 arg_list.append(axis.name)
 
-- 
2.43.0


From b04acb099c937a4caea00c1c5cc8502c39cf9e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:31 +0000
Subject: [PATCH 058/113] fix: mirror all negative wavenumbers when filtering
 spectral leakage

---
 SciDataTool/Methods/DataND/filter_spectral_leakage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 25fcf8a..ca0f851 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -134,13 +134,15 @@ def filter_spectral_leakage(
         # Mirror spectrum
         if "wavenumber" in result:
             # Mirror negative frequencies to negative wavenumbers
+            Nrn = np.sum(wavenumber < 0)
+            Nrp = np.sum(wavenumber > 0)
             Ifn = ~Ifp
             if freqs_th_store[0] == 0:
                 Ifn[I0] = True
             spectrum_filt = np.concatenate(
                 (
                     spectrum_filt[Ifp, ...],
-                    np.flip(np.conj(spectrum_filt[Ifn, 1:-1, ...])),
+                    np.flip(np.conj(spectrum_filt[Ifn, Nrn - Nrp : Nrn, ...])),
                 ),
                 axis=1,
             )
-- 
2.43.0


From 7274aa0f08deb868f08b71b739ebea2838d48996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:33 +0000
Subject: [PATCH 059/113] fix: do not flip other axes when mirroring spectrum
 in leakage filtering

---
 SciDataTool/Methods/DataND/filter_spectral_leakage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index ca0f851..1023166 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -105,7 +105,9 @@ def filter_spectral_leakage(
         freqs = np.concatenate((-np.flip(freqs), freqs[If0]))
         spectrum = np.concatenate(
             (
-                np.flip(np.conj(spectrum)),
+                np.flip(
+                    np.conj(spectrum), axis=(0, 1) if "wavenumber" in result else 0
+                ),
                 spectrum[If0, ...],
             ),
             axis=0,
@@ -142,7 +144,9 @@ def filter_spectral_leakage(
             spectrum_filt = np.concatenate(
                 (
                     spectrum_filt[Ifp, ...],
-                    np.flip(np.conj(spectrum_filt[Ifn, Nrn - Nrp : Nrn, ...])),
+                    np.flip(
+                        np.conj(spectrum_filt[Ifn, Nrn - Nrp : Nrn, ...]), axis=(0, 1)
+                    ),
                 ),
                 axis=1,
             )
-- 
2.43.0


From d228f3b01447d8aa093e3602ae41a9cfc752fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:36 +0000
Subject: [PATCH 060/113] fix: use exact window for theoretical frequencies
 close to spectral lines

---
 SciDataTool/Functions/filter_spectral_leakage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/filter_spectral_leakage.py b/SciDataTool/Functions/filter_spectral_leakage.py
index 9ba70b7..2ca478b 100644
--- a/SciDataTool/Functions/filter_spectral_leakage.py
+++ b/SciDataTool/Functions/filter_spectral_leakage.py
@@ -95,7 +95,7 @@ def filter_spectral_leakage(
 
         # Calculate filtering matrix: spectrum of door window
         xfreqs2, xfreqs1 = np.meshgrid(freqs_th, freqs[If])
-        Wmatf = my_doorwin(xfreqs1 - xfreqs2, Nt, dt, tol0=1e-4)
+        Wmatf = my_doorwin(xfreqs1 - xfreqs2, Nt, dt, tol0=1e-9 * df_fft)
 
     # Check that spectrum is either 1D or 3D
     if spectrum.ndim > 2:
-- 
2.43.0


From c07964f823671e34f04c087f5a57c4839c71e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:38 +0000
Subject: [PATCH 061/113] fix: keep real data flag when filtering spectral
 leakage

---
 SciDataTool/Methods/DataND/filter_spectral_leakage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 1023166..17667db 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -196,7 +196,7 @@ def filter_spectral_leakage(
         axes=axes_list_filt,
         values=spectrum_filt,
         normalizations=self.normalizations,
-        is_real=True,
+        is_real=is_real,
     )
 
     if is_return_calc_data:
-- 
2.43.0


From 3b03cb06008d1727829b8b841301b9206d7b86a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:00 +0000
Subject: [PATCH 062/113] fix: copy nested filters, symmetries and Fourier
 parameters when copying objects

---
 SciDataTool/Classes/Data1D.py       | 8 ++++----
 SciDataTool/Classes/DataDual.py     | 2 +-
 SciDataTool/Classes/DataFreq.py     | 2 +-
 SciDataTool/Classes/DataLinspace.py | 4 ++--
 SciDataTool/Classes/DataND.py       | 4 ++--
 SciDataTool/Classes/DataPattern.py  | 4 ++--
 SciDataTool/Classes/DataTime.py     | 2 +-
 7 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/SciDataTool/Classes/Data1D.py b/SciDataTool/Classes/Data1D.py
index a4f05bc..5d6e6d3 100644
--- a/SciDataTool/Classes/Data1D.py
+++ b/SciDataTool/Classes/Data1D.py
@@ -442,14 +442,14 @@ class Data1D(Data):
                 )
         Data1D_dict["is_components"] = self.is_components
         Data1D_dict["symmetries"] = (
-            self.symmetries.copy() if self.symmetries is not None else None
+            deepcopy(self.symmetries) if self.symmetries is not None else None
         )
         Data1D_dict["is_overlay"] = self.is_overlay
         Data1D_dict["delimiter"] = self.delimiter
         Data1D_dict["sort_indices"] = (
             self.sort_indices.copy() if self.sort_indices is not None else None
         )
-        Data1D_dict["filter"] = self.filter.copy() if self.filter is not None else None
+        Data1D_dict["filter"] = deepcopy(self.filter) if self.filter is not None else None
         Data1D_dict["char_to_rm"] = (
             self.char_to_rm.copy() if self.char_to_rm is not None else None
         )
@@ -470,7 +470,7 @@ class Data1D(Data):
         if self.symmetries is None:
             symmetries_val = None
         else:
-            symmetries_val = self.symmetries.copy()
+            symmetries_val = deepcopy(self.symmetries)
         is_overlay_val = self.is_overlay
         delimiter_val = self.delimiter
         if self.sort_indices is None:
@@ -480,7 +480,7 @@ class Data1D(Data):
         if self.filter is None:
             filter_val = None
         else:
-            filter_val = self.filter.copy()
+            filter_val = deepcopy(self.filter)
         if self.char_to_rm is None:
             char_to_rm_val = None
         else:
diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 7da5841..0d166f0 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -363,7 +363,7 @@ class DataDual(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataFreq.py b/SciDataTool/Classes/DataFreq.py
index 15ffe1b..d8094d4 100644
--- a/SciDataTool/Classes/DataFreq.py
+++ b/SciDataTool/Classes/DataFreq.py
@@ -231,7 +231,7 @@ class DataFreq(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataLinspace.py b/SciDataTool/Classes/DataLinspace.py
index f7cd413..3a2b553 100644
--- a/SciDataTool/Classes/DataLinspace.py
+++ b/SciDataTool/Classes/DataLinspace.py
@@ -397,7 +397,7 @@ class DataLinspace(Data):
         DataLinspace_dict["include_endpoint"] = self.include_endpoint
         DataLinspace_dict["is_components"] = self.is_components
         DataLinspace_dict["symmetries"] = (
-            self.symmetries.copy() if self.symmetries is not None else None
+            deepcopy(self.symmetries) if self.symmetries is not None else None
         )
         DataLinspace_dict["is_overlay"] = self.is_overlay
         # The class name is added to the dict for deserialisation purpose
@@ -418,7 +418,7 @@ class DataLinspace(Data):
         if self.symmetries is None:
             symmetries_val = None
         else:
-            symmetries_val = self.symmetries.copy()
+            symmetries_val = deepcopy(self.symmetries)
         is_overlay_val = self.is_overlay
         symbol_val = self.symbol
         name_val = self.name
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index 8ea31f5..66d589b 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -678,7 +678,7 @@ class DataND(Data):
                 else:
                     DataND_dict["axes"].append(None)
         DataND_dict["FTparameters"] = (
-            self.FTparameters.copy() if self.FTparameters is not None else None
+            deepcopy(self.FTparameters) if self.FTparameters is not None else None
         )
         if self.values is None:
             DataND_dict["values"] = None
@@ -712,7 +712,7 @@ class DataND(Data):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataPattern.py b/SciDataTool/Classes/DataPattern.py
index 0d1133e..bc249dc 100644
--- a/SciDataTool/Classes/DataPattern.py
+++ b/SciDataTool/Classes/DataPattern.py
@@ -372,7 +372,7 @@ class DataPattern(Data):
                 )
         DataPattern_dict["is_components"] = self.is_components
         DataPattern_dict["symmetries"] = (
-            self.symmetries.copy() if self.symmetries is not None else None
+            deepcopy(self.symmetries) if self.symmetries is not None else None
         )
         if self.values_whole is None:
             DataPattern_dict["values_whole"] = None
@@ -414,7 +414,7 @@ class DataPattern(Data):
         if self.symmetries is None:
             symmetries_val = None
         else:
-            symmetries_val = self.symmetries.copy()
+            symmetries_val = deepcopy(self.symmetries)
         if self.values_whole is None:
             values_whole_val = None
         else:
diff --git a/SciDataTool/Classes/DataTime.py b/SciDataTool/Classes/DataTime.py
index e9a6b15..47e8607 100644
--- a/SciDataTool/Classes/DataTime.py
+++ b/SciDataTool/Classes/DataTime.py
@@ -203,7 +203,7 @@ class DataTime(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
-- 
2.43.0


From 1ba9034212bf1ba8f662146fc245938217ebed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:36 +0000
Subject: [PATCH 063/113] fix: do not modify the lists and dictionaries of
 nested objects given by the user

---
 SciDataTool/Classes/DataDual.py                 | 2 ++
 SciDataTool/Classes/DataND.py                   | 1 +
 SciDataTool/Classes/VectorField.py              | 1 +
 SciDataTool/Methods/Data/_set_normalizations.py | 1 +
 4 files changed, 5 insertions(+)

diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 0d166f0..cbebdba 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -416,6 +416,7 @@ class DataDual(DataND):
     def _set_axes_dt(self, value):
         """setter of axes_dt"""
         if type(value) is list:
+            value = value.copy()  # The list given by the user is not modified
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
@@ -483,6 +484,7 @@ class DataDual(DataND):
     def _set_axes_df(self, value):
         """setter of axes_df"""
         if type(value) is list:
+            value = value.copy()  # The list given by the user is not modified
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index 66d589b..f7f2c86 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -761,6 +761,7 @@ class DataND(Data):
     def _set_axes(self, value):
         """setter of axes"""
         if type(value) is list:
+            value = value.copy()  # The list given by the user is not modified
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index d62d39e..d6786bd 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -546,6 +546,7 @@ class VectorField(FrozenClass):
     def _set_components(self, value):
         """setter of components"""
         if type(value) is dict:
+            value = value.copy()  # The dict given by the user is not modified
             for key, obj in value.items():
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Methods/Data/_set_normalizations.py b/SciDataTool/Methods/Data/_set_normalizations.py
index 506c639..d7c9c67 100644
--- a/SciDataTool/Methods/Data/_set_normalizations.py
+++ b/SciDataTool/Methods/Data/_set_normalizations.py
@@ -6,6 +6,7 @@ from numpy import ndarray, int32, int64, float32, float64
 def _set_normalizations(self, value):
     """setter of normalizations"""
     if type(value) is dict:
+        value = value.copy()  # The dict given by the user is not modified
         for key, obj in value.items():
             if type(obj) is dict:
                 class_obj = import_class(
-- 
2.43.0


From b1c524724cf38d3fa1f1b564d5c8c5cda612fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:55 +0000
Subject: [PATCH 064/113] fix: save and load complex values and numpy numbers

---
 SciDataTool/Functions/Load/load_json.py | 20 +++++++++++++++-
 SciDataTool/Functions/save.py           | 32 ++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/Load/load_json.py b/SciDataTool/Functions/Load/load_json.py
index 04383d5..9535d68 100644
--- a/SciDataTool/Functions/Load/load_json.py
+++ b/SciDataTool/Functions/Load/load_json.py
@@ -3,6 +3,24 @@ from os.path import isfile, isdir
 from re import match
 
 
+def decode_value(value):
+    """Convert back the complex numbers written by save
+
+    Parameters
+    ----------
+    value : dict
+        json object
+
+    Returns
+    -------
+    value : dict or complex
+        converted object
+    """
+    if list(value) == ["__complex__"]:
+        value = complex(*value["__complex__"])
+    return value
+
+
 def load_json(file_path):
     """Load a json file
 
@@ -35,7 +53,7 @@ def load_json(file_path):
 
     # Get the data dictionary
     with open(file_path, "r") as load_file:
-        json_data = jload(load_file)
+        json_data = jload(load_file, object_hook=decode_value)
 
     return file_path, json_data
 
diff --git a/SciDataTool/Functions/save.py b/SciDataTool/Functions/save.py
index 46036b0..ac90bd9 100644
--- a/SciDataTool/Functions/save.py
+++ b/SciDataTool/Functions/save.py
@@ -1,5 +1,6 @@
 from json import dump
 from os.path import join, basename, isdir
+from numpy import generic
 
 
 def fix_file_name(save_path, obj):
@@ -63,6 +64,28 @@ def build_data(obj):
         return None
 
 
+def encode_value(value):
+    """Convert numpy scalars and complex numbers, which json can not write
+
+    Parameters
+    ----------
+    value : numpy scalar or complex
+        value to convert
+
+    Returns
+    -------
+    value :
+        A serializable value
+    """
+    if isinstance(value, generic):
+        value = value.item()
+    if isinstance(value, complex):
+        value = {"__complex__": [value.real, value.imag]}
+    elif not is_json_serializable(value):
+        raise TypeError("Can not save object of type " + type(value).__name__)
+    return value
+
+
 def save_data(obj, save_path=""):
     """Save the object to the save_path
     Parameters
@@ -77,7 +100,14 @@ def save_data(obj, save_path=""):
     # save
     obj = build_data(obj)
     with open(file_path, "w") as json_file:
-        dump(obj, json_file, sort_keys=True, indent=4, separators=(",", ": "))
+        dump(
+            obj,
+            json_file,
+            sort_keys=True,
+            indent=4,
+            separators=(",", ": "),
+            default=encode_value,
+        )
 
 
 def save(self, save_path=""):
-- 
2.43.0


From 8d87ec5b7e704910e65c77d9e27ecf788d9b4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:47 +0000
Subject: [PATCH 065/113] fix: report renamed normalizations and components as
 differences

---
 SciDataTool/Classes/Data.py        | 2 ++
 SciDataTool/Classes/VectorField.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/SciDataTool/Classes/Data.py b/SciDataTool/Classes/Data.py
index 0409550..530eb12 100644
--- a/SciDataTool/Classes/Data.py
+++ b/SciDataTool/Classes/Data.py
@@ -167,6 +167,8 @@ class Data(FrozenClass):
             pass
         elif len(other.normalizations) != len(self.normalizations):
             diff_list.append("len(" + name + "normalizations)")
+        elif other.normalizations.keys() != self.normalizations.keys():
+            diff_list.append("keys(" + name + ".normalizations)")
         else:
             for key in self.normalizations:
                 diff_list.extend(
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index d6786bd..e2e6fb4 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -418,6 +418,8 @@ class VectorField(FrozenClass):
             pass
         elif len(other.components) != len(self.components):
             diff_list.append("len(" + name + "components)")
+        elif other.components.keys() != self.components.keys():
+            diff_list.append("keys(" + name + ".components)")
         else:
             for key in self.components:
                 diff_list.extend(
-- 
2.43.0


From 8bd5054aae3aa559116fd3a1529a9925b6448732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:52 +0000
Subject: [PATCH 066/113] fix: ignore attributes in difference reports with
 values

---
 SciDataTool/Classes/Data.py          | 4 +++-
 SciDataTool/Classes/Data1D.py        | 4 +++-
 SciDataTool/Classes/DataDual.py      | 4 +++-
 SciDataTool/Classes/DataFreq.py      | 4 +++-
 SciDataTool/Classes/DataLinspace.py  | 4 +++-
 SciDataTool/Classes/DataND.py        | 4 +++-
 SciDataTool/Classes/DataPattern.py   | 4 +++-
 SciDataTool/Classes/DataTime.py      | 4 +++-
 SciDataTool/Classes/Norm_affine.py   | 4 +++-
 SciDataTool/Classes/Norm_func.py     | 4 +++-
 SciDataTool/Classes/Norm_indices.py  | 4 +++-
 SciDataTool/Classes/Norm_ref.py      | 4 +++-
 SciDataTool/Classes/Norm_vector.py   | 4 +++-
 SciDataTool/Classes/Normalization.py | 4 +++-
 SciDataTool/Classes/RequestedAxis.py | 4 +++-
 SciDataTool/Classes/VectorField.py   | 4 +++-
 16 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/SciDataTool/Classes/Data.py b/SciDataTool/Classes/Data.py
index 530eb12..54d3926 100644
--- a/SciDataTool/Classes/Data.py
+++ b/SciDataTool/Classes/Data.py
@@ -180,7 +180,9 @@ class Data(FrozenClass):
                     )
                 )
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/Data1D.py b/SciDataTool/Classes/Data1D.py
index 5d6e6d3..ba0fd9e 100644
--- a/SciDataTool/Classes/Data1D.py
+++ b/SciDataTool/Classes/Data1D.py
@@ -382,7 +382,9 @@ class Data1D(Data):
             else:
                 diff_list.append(name + ".char_to_rm")
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index cbebdba..5cb66e2 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -232,7 +232,9 @@ class DataDual(DataND):
         if not array_equal(other.values_df, self.values_df):
             diff_list.append(name + ".values_df")
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/DataFreq.py b/SciDataTool/Classes/DataFreq.py
index d8094d4..eafbefc 100644
--- a/SciDataTool/Classes/DataFreq.py
+++ b/SciDataTool/Classes/DataFreq.py
@@ -184,7 +184,9 @@ class DataFreq(DataND):
             )
         )
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/DataLinspace.py b/SciDataTool/Classes/DataLinspace.py
index 3a2b553..533905e 100644
--- a/SciDataTool/Classes/DataLinspace.py
+++ b/SciDataTool/Classes/DataLinspace.py
@@ -351,7 +351,9 @@ class DataLinspace(Data):
             else:
                 diff_list.append(name + ".is_overlay")
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index f7f2c86..485ae07 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -625,7 +625,9 @@ class DataND(Data):
             else:
                 diff_list.append(name + ".is_real")
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/DataPattern.py b/SciDataTool/Classes/DataPattern.py
index bc249dc..89b7b2d 100644
--- a/SciDataTool/Classes/DataPattern.py
+++ b/SciDataTool/Classes/DataPattern.py
@@ -307,7 +307,9 @@ class DataPattern(Data):
             else:
                 diff_list.append(name + ".is_overlay")
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/DataTime.py b/SciDataTool/Classes/DataTime.py
index 47e8607..56c9508 100644
--- a/SciDataTool/Classes/DataTime.py
+++ b/SciDataTool/Classes/DataTime.py
@@ -156,7 +156,9 @@ class DataTime(DataND):
             )
         )
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/Norm_affine.py b/SciDataTool/Classes/Norm_affine.py
index 20e9437..b352019 100644
--- a/SciDataTool/Classes/Norm_affine.py
+++ b/SciDataTool/Classes/Norm_affine.py
@@ -147,7 +147,9 @@ class Norm_affine(Normalization):
             else:
                 diff_list.append(name + ".offset")
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/Norm_func.py b/SciDataTool/Classes/Norm_func.py
index 5c0a3d5..0c3a7c6 100644
--- a/SciDataTool/Classes/Norm_func.py
+++ b/SciDataTool/Classes/Norm_func.py
@@ -119,7 +119,9 @@ class Norm_func(Normalization):
         if other._function_str != self._function_str:
             diff_list.append(name + ".function")
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/Norm_indices.py b/SciDataTool/Classes/Norm_indices.py
index 785bd95..352532d 100644
--- a/SciDataTool/Classes/Norm_indices.py
+++ b/SciDataTool/Classes/Norm_indices.py
@@ -103,7 +103,9 @@ class Norm_indices(Normalization):
             )
         )
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/Norm_ref.py b/SciDataTool/Classes/Norm_ref.py
index ad0a18e..a7ea798 100644
--- a/SciDataTool/Classes/Norm_ref.py
+++ b/SciDataTool/Classes/Norm_ref.py
@@ -122,7 +122,9 @@ class Norm_ref(Normalization):
             else:
                 diff_list.append(name + ".ref")
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/Norm_vector.py b/SciDataTool/Classes/Norm_vector.py
index a10737b..82fa64e 100644
--- a/SciDataTool/Classes/Norm_vector.py
+++ b/SciDataTool/Classes/Norm_vector.py
@@ -116,7 +116,9 @@ class Norm_vector(Normalization):
         if not array_equal(other.vector, self.vector):
             diff_list.append(name + ".vector")
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/Normalization.py b/SciDataTool/Classes/Normalization.py
index 62d314f..06b9b65 100644
--- a/SciDataTool/Classes/Normalization.py
+++ b/SciDataTool/Classes/Normalization.py
@@ -89,7 +89,9 @@ class Normalization(FrozenClass):
             else:
                 diff_list.append(name + ".unit")
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/RequestedAxis.py b/SciDataTool/Classes/RequestedAxis.py
index 873bbc7..ac31491 100644
--- a/SciDataTool/Classes/RequestedAxis.py
+++ b/SciDataTool/Classes/RequestedAxis.py
@@ -393,7 +393,9 @@ class RequestedAxis(FrozenClass):
             else:
                 diff_list.append(name + ".is_components")
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index e2e6fb4..794ea25 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -431,7 +431,9 @@ class VectorField(FrozenClass):
                     )
                 )
         # Filter ignore differences
-        diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
+        diff_list = list(
+            filter(lambda x: x.split(" (self=")[0] not in ignore_list, diff_list)
+        )
         return diff_list
 
     def __sizeof__(self):
-- 
2.43.0


From 0185dc8abee633a82ebaea9e2a694a24df1cbaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:36 +0000
Subject: [PATCH 067/113] fix: compare functions of normalizations which are
 not given as text

---
 SciDataTool/Classes/Norm_func.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Classes/Norm_func.py b/SciDataTool/Classes/Norm_func.py
index 0c3a7c6..78eb118 100644
--- a/SciDataTool/Classes/Norm_func.py
+++ b/SciDataTool/Classes/Norm_func.py
@@ -99,6 +99,8 @@ class Norm_func(Normalization):
             return False
         if other._function_str != self._function_str:
             return False
+        if self._function_str is None and other._function_func != self._function_func:
+            return False
         return True
 
     def compare(self, other, name="self", ignore_list=None, is_add_value=False):
@@ -116,7 +118,9 @@ class Norm_func(Normalization):
                 other, name=name, ignore_list=ignore_list, is_add_value=is_add_value
             )
         )
-        if other._function_str != self._function_str:
+        if other._function_str != self._function_str or (
+            self._function_str is None and other._function_func != self._function_func
+        ):
             diff_list.append(name + ".function")
         # Filter ignore differences
         diff_list = list(
-- 
2.43.0


From 1e0038857b5ef1a77674626f0618b1407206ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:55 +0000
Subject: [PATCH 068/113] fix: reject axes which are not axis objects with a
 type error

---
 SciDataTool/Classes/DataDual.py | 8 ++++----
 SciDataTool/Classes/DataND.py   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 5cb66e2..15f4084 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -434,9 +434,9 @@ class DataDual(DataND):
                         "SciDataTool.Classes", obj.get("__class__"), "axes_dt"
                     )
                     value[ii] = class_obj(init_dict=obj)
-                if value[ii] is not None:
+                if hasattr(value[ii], "parent"):
                     value[ii].parent = self
-        if value == -1:
+        if type(value) is int and value == -1:
             value = list()
         check_var("axes_dt", value, "[Data]")
         self._axes_dt = value
@@ -502,9 +502,9 @@ class DataDual(DataND):
                         "SciDataTool.Classes", obj.get("__class__"), "axes_df"
                     )
                     value[ii] = class_obj(init_dict=obj)
-                if value[ii] is not None:
+                if hasattr(value[ii], "parent"):
                     value[ii].parent = self
-        if value == -1:
+        if type(value) is int and value == -1:
             value = list()
         check_var("axes_df", value, "[Data]")
         self._axes_df = value
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index 485ae07..f1a629a 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -779,9 +779,9 @@ class DataND(Data):
                         "SciDataTool.Classes", obj.get("__class__"), "axes"
                     )
                     value[ii] = class_obj(init_dict=obj)
-                if value[ii] is not None:
+                if hasattr(value[ii], "parent"):
                     value[ii].parent = self
-        if value == -1:
+        if type(value) is int and value == -1:
             value = list()
         check_var("axes", value, "[Data]")
         self._axes = value
-- 
2.43.0


From 1b00c84f9a4cb25f4b03bc5adc04a01f4ee29548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:16 +0000
Subject: [PATCH 069/113] fix: raise dimension error for fields with missing
 dimensions and axes of size one

---
 SciDataTool/Classes/_check.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index e5df822..b09be9b 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -1,4 +1,4 @@
-from numpy import array, empty, int32, int64, squeeze, expand_dims
+from numpy import array, empty, int32, int64, squeeze
 
 
 def set_array(obj, prop, value):
@@ -358,10 +358,8 @@ def check_dimensions(values, axes):
                     axes_shape.append(axis.get_length(is_smallestperiod=True))
 
         if values_shape != tuple(axes_shape):
-            for i, s in enumerate(axes_shape):
-                if s == 1:
-                    values = expand_dims(values, axis=i)
-            if values.shape != tuple(axes_shape):
+            # Axes of size 1 can be omitted
+            if squeeze(values).shape != tuple(s for s in axes_shape if s != 1):
                 raise CheckDimError(
                     "Dimensions of field ("
                     + str(values_shape)
@@ -369,6 +367,7 @@ def check_dimensions(values, axes):
                     + str(tuple(axes_shape))
                     + ") do not match"
                 )
+            values = values.reshape(axes_shape)
         return values
 
 
-- 
2.43.0


From 8fb9f4ddba4afce2d4cdb8db7a3124a79ea5a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:43 +0000
Subject: [PATCH 070/113] fix: extract harmonics when a single line is
 requested

---
 SciDataTool/Methods/DataND/get_harmonics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/get_harmonics.py b/SciDataTool/Methods/DataND/get_harmonics.py
index 7cfff8e..cd12f66 100644
--- a/SciDataTool/Methods/DataND/get_harmonics.py
+++ b/SciDataTool/Methods/DataND/get_harmonics.py
@@ -1,5 +1,6 @@
 from numpy import (
     argsort,
+    atleast_1d,
     negative,
     meshgrid,
 )
@@ -32,7 +33,8 @@ def get_harmonics(
     return_dict = self.get_magnitude_along(
         args, unit=unit, is_norm=is_norm, axis_data=axis_data
     )
-    values = return_dict[self.symbol]
+    # Keep one dimension when a single line is requested
+    values = atleast_1d(return_dict[self.symbol])
 
     # 2D case
     if "freqs" in return_dict and "wavenumber" in return_dict:
-- 
2.43.0


From 243f86f0142d32bc60f09bb76654c90ebc30e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:24 +0000
Subject: [PATCH 071/113] fix: compare interpolation points with the axis
 relatively to its step

---
 SciDataTool/Functions/interpolations.py | 58 ++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index b11aae8..f2c30ba 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -4,7 +4,7 @@ from numpy import (
     linspace,
     argmin,
     take,
-    isclose,
+    diff,
     isin,
     all,
     abs as np_abs,
@@ -52,6 +52,42 @@ def get_common_base(values1, values2, is_extrap=False, is_downsample=False):
     return linspace(initial, final, int(number), endpoint=True)
 
 
+def get_tolerance(axis_values):
+    """Returns the distance under which values are the same, as a small part of the step
+    Parameters
+    ----------
+    axis_values: list
+        values of an axis
+    Returns
+    -------
+    float
+    """
+    steps = np_abs(diff(axis_values))
+    steps = steps[steps > 0]
+    return 1e-3 * min(steps) if len(steps) > 0 else 0
+
+
+def is_same_axis(values1, values2):
+    """Tests if two axes have the same values
+    Parameters
+    ----------
+    values1: list
+        values of the first axis
+    values2: list
+        values of the second axis
+    Returns
+    -------
+    Boolean
+    """
+    if len(values1) != len(values2):
+        return False
+    values1 = array(values1)
+    values2 = array(values2)
+    if values1.dtype.kind in "US" or values2.dtype.kind in "US":
+        return bool(all(values1 == values2))
+    return bool(all(np_abs(values1 - values2) <= get_tolerance(values1)))
+
+
 def get_interpolation(values, axis_values, new_axis_values, index):
     """Returns the interpolated field along one axis, given the new axis
     Parameters
@@ -84,8 +120,8 @@ def get_interpolation(values, axis_values, new_axis_values, index):
         else:
             idx = argmin(np_abs(axis_values - new_axis_values[0]))
             return take(values, [idx], axis=index)
-    elif len(axis_values) == len(new_axis_values) and all(
-        isclose(axis_values, new_axis_values, rtol=1e-03)
+    elif is_same_axis(
+        axis_values, new_axis_values
     ):  # Same axes -> no interpolation
         return values
     elif isin(
@@ -124,8 +160,8 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
     # elif len(new_axis_values) == 1:  # Single point -> use argmin
     #     idx = argmin(np_abs(axis_values - new_axis_values[0]))
     #     return take(values, [idx])
-    elif len(axis_values) == len(new_axis_values) and all(
-        isclose(axis_values, new_axis_values, rtol=1e-03)
+    elif is_same_axis(
+        axis_values, new_axis_values
     ):  # Same axes -> no interpolation
         return values
     elif isin(
@@ -150,11 +186,13 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
                 new_values[(slice(None),) * index + (i,)] = take(values, 0, axis=index)
             return new_values
         else:
+            tol = get_tolerance(axis_values)
             for i in range(len(new_axis_values)):
                 for j in range(len(axis_values) - 1):
-                    if isclose(
-                        new_axis_values[i], axis_values[j], rtol=1e-03
-                    ) and isclose(new_axis_values[i], axis_values[j + 1], rtol=1e-03):
+                    if (
+                        np_abs(new_axis_values[i] - axis_values[j]) <= tol
+                        and np_abs(new_axis_values[i] - axis_values[j + 1]) <= tol
+                    ):
                         new_values[(slice(None),) * index + (i,)] = (
                             take(values, j, axis=index)
                             + take(values, j + 1, axis=index)
@@ -163,9 +201,7 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
                     elif (
                         new_axis_values[i] >= axis_values[j]
                         and new_axis_values[i] < axis_values[j + 1]
-                        and not isclose(
-                            new_axis_values[i], axis_values[j + 1], rtol=1e-03
-                        )
+                        and np_abs(new_axis_values[i] - axis_values[j + 1]) > tol
                     ):
                         new_values[(slice(None),) * index + (i,)] = take(
                             values, j, axis=index
-- 
2.43.0


From 8819033a20553450e0892e0d734d2dda83b6157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:12 +0000
Subject: [PATCH 072/113] fix: keep the step of axes reduced to one sample per
 period

---
 SciDataTool/Methods/Data1D/get_axis_periodic.py       | 3 +++
 SciDataTool/Methods/DataLinspace/get_axis_periodic.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/SciDataTool/Methods/Data1D/get_axis_periodic.py b/SciDataTool/Methods/Data1D/get_axis_periodic.py
index 87c349c..f459251 100644
--- a/SciDataTool/Methods/Data1D/get_axis_periodic.py
+++ b/SciDataTool/Methods/Data1D/get_axis_periodic.py
@@ -47,6 +47,9 @@ def get_axis_periodic(self, Nper, is_aper=False):
             symmetries = dict()
         else:
             symmetries = {sym: Nper}
+            if len(values_per) == 1:
+                # Step cannot be found from a single sample
+                symmetries["delta"] = values[1] - values[0]
 
         New_axis = Data1D(
             values=values_per,
diff --git a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
index d6057d4..390b2e8 100644
--- a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
+++ b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
@@ -47,6 +47,9 @@ def get_axis_periodic(self, Nper, is_aper=False):
             symmetries = dict()
         else:
             symmetries = {sym: Nper}
+            if len(values_per) == 1:
+                # Step cannot be found from a single sample
+                symmetries["delta"] = values[1] - values[0]
 
         New_axis = DataLinspace(
             initial=self.initial,
-- 
2.43.0


From 2e7a45e4e09947607cf22f54f6fea20b1b477198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:18 +0000
Subject: [PATCH 073/113] fix: compare axes with linspaces relatively to their
 step

---
 SciDataTool/Methods/Data1D/to_linspace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/to_linspace.py b/SciDataTool/Methods/Data1D/to_linspace.py
index 202531f..7d27979 100644
--- a/SciDataTool/Methods/Data1D/to_linspace.py
+++ b/SciDataTool/Methods/Data1D/to_linspace.py
@@ -1,4 +1,5 @@
-from numpy import allclose, linspace
+from numpy import allclose, diff, linspace
+from numpy import abs as np_abs, min as np_min
 
 
 def to_linspace(self):
@@ -25,8 +26,8 @@ def to_linspace(self):
         and allclose(
             values,
             linspace(values[0], values[-1], number, endpoint=True),
-            rtol=1e-5,
-            atol=1e-8,
+            rtol=0,
+            atol=1e-3 * np_min(np_abs(diff(values))),
             equal_nan=False,
         )
     ):
-- 
2.43.0


From 336f4e2dc521623b4ffc7e62da26b86bf6849b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:42 +0000
Subject: [PATCH 074/113] fix: ignore symmetries in the length of fft axes as
 in their values

---
 SciDataTool/Methods/Data1D/get_length.py       | 4 ++++
 SciDataTool/Methods/DataLinspace/get_length.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/SciDataTool/Methods/Data1D/get_length.py b/SciDataTool/Methods/Data1D/get_length.py
index 549d243..6354629 100644
--- a/SciDataTool/Methods/Data1D/get_length.py
+++ b/SciDataTool/Methods/Data1D/get_length.py
@@ -16,6 +16,10 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     Length of axis
     """
     N = len(self.values)
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
diff --git a/SciDataTool/Methods/DataLinspace/get_length.py b/SciDataTool/Methods/DataLinspace/get_length.py
index 48d9598..656ed58 100644
--- a/SciDataTool/Methods/DataLinspace/get_length.py
+++ b/SciDataTool/Methods/DataLinspace/get_length.py
@@ -23,6 +23,10 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     else:
         N = self.number
 
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
-- 
2.43.0


From 3b72c58f650e86a37adc17c641f845d1a78c067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:26 +0000
Subject: [PATCH 075/113] fix: keep shared axes unchanged in comparisons

---
 SciDataTool/Functions/interpolations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index f2c30ba..0a96517 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -30,6 +30,8 @@ def get_common_base(values1, values2, is_extrap=False, is_downsample=False):
     -------
     list of the common axis values
     """
+    if is_same_axis(values1, values2):
+        return values1
     if is_extrap:
         initial = min(values1[0], values2[0])
         final = max(values1[-1], values2[-1])
@@ -46,9 +48,7 @@ def get_common_base(values1, values2, is_extrap=False, is_downsample=False):
         samples1 = [i for i in values1 if i >= initial and i <= final]
         samples2 = [i for i in values2 if i >= initial and i <= final]
         samples = samples1 if len(samples1) > len(samples2) else samples2
-        number = len(samples)
-        initial = samples[0]
-        final = samples[-1]
+        return array(samples)
     return linspace(initial, final, int(number), endpoint=True)
 
 
-- 
2.43.0


From 10c7f4d6d661abf51868c3dc652a8a7477680be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:59 +0000
Subject: [PATCH 076/113] fix: compare data objects storing their axes in
 another order

---
 SciDataTool/Functions/interpolations.py       | 24 +++++++++++++++++++
 SciDataTool/Methods/DataND/compare_along.py   | 10 ++++++--
 .../Methods/DataND/compare_magnitude_along.py | 10 ++++++--
 .../Methods/DataND/compare_phase_along.py     | 10 ++++++--
 4 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 0a96517..edb5999 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -10,6 +10,7 @@ from numpy import (
     abs as np_abs,
     where,
     zeros,
+    transpose,
 )
 from scipy.interpolate import interp1d
 
@@ -52,6 +53,29 @@ def get_common_base(values1, values2, is_extrap=False, is_downsample=False):
     return linspace(initial, final, int(number), endpoint=True)
 
 
+def reorder_values(values, results, axes):
+    """Returns the field with its dimensions in the same order as given axes
+    Parameters
+    ----------
+    values: ndarray
+        array of a field
+    results: dict
+        axes values in the order of the dimensions of the field
+    axes: list
+        axes names in the requested order
+    Returns
+    -------
+    ndarray of the reordered field
+    """
+    # Reduced axes and single samples have been squeezed
+    names = [
+        axis
+        for axis in results
+        if axis in axes and not isinstance(results[axis], str) and len(results[axis]) > 1
+    ]
+    return transpose(values, [names.index(axis) for axis in axes if axis in names])
+
+
 def get_tolerance(axis_values):
     """Returns the distance under which values are the same, as a small part of the step
     Parameters
diff --git a/SciDataTool/Methods/DataND/compare_along.py b/SciDataTool/Methods/DataND/compare_along.py
index 077de45..4dbde52 100644
--- a/SciDataTool/Methods/DataND/compare_along.py
+++ b/SciDataTool/Methods/DataND/compare_along.py
@@ -1,4 +1,8 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from SciDataTool.Functions.interpolations import (
+    get_common_base,
+    get_interpolation,
+    reorder_values,
+)
 
 
 def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
@@ -33,7 +37,9 @@ def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
         return_dict = {}
         for data in data_list:
             results = data.get_along(args, unit=unit, is_norm=is_norm)
-            data_values.append(results.pop(data.symbol))
+            data_values.append(
+                reorder_values(results.pop(data.symbol), results, list(axes))
+            )
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
diff --git a/SciDataTool/Methods/DataND/compare_magnitude_along.py b/SciDataTool/Methods/DataND/compare_magnitude_along.py
index 19dd81c..99cc716 100644
--- a/SciDataTool/Methods/DataND/compare_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/compare_magnitude_along.py
@@ -1,4 +1,8 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from SciDataTool.Functions.interpolations import (
+    get_common_base,
+    get_interpolation,
+    reorder_values,
+)
 
 
 def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False):
@@ -33,7 +37,9 @@ def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False)
         return_dict = {}
         for data in data_list:
             results = data.get_magnitude_along(args, unit=unit, is_norm=is_norm)
-            data_values.append(results.pop(data.symbol))
+            data_values.append(
+                reorder_values(results.pop(data.symbol), results, list(axes))
+            )
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
diff --git a/SciDataTool/Methods/DataND/compare_phase_along.py b/SciDataTool/Methods/DataND/compare_phase_along.py
index 2251ada..148e786 100644
--- a/SciDataTool/Methods/DataND/compare_phase_along.py
+++ b/SciDataTool/Methods/DataND/compare_phase_along.py
@@ -1,4 +1,8 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from SciDataTool.Functions.interpolations import (
+    get_common_base,
+    get_interpolation,
+    reorder_values,
+)
 
 
 def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
@@ -33,7 +37,9 @@ def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
         return_dict = {}
         for data in data_list:
             results = data.get_phase_along(args, unit=unit, is_norm=is_norm)
-            data_values.append(results.pop(data.symbol))
+            data_values.append(
+                reorder_values(results.pop(data.symbol), results, list(axes))
+            )
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
-- 
2.43.0


From 428b302f232b1d361a2a95d0211db0e4ce4adbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:17 +0000
Subject: [PATCH 077/113] fix: keep full field and axes when changing the
 periodicity of a vector field

---
 .../Methods/VectorField/change_periodicity.py | 53 +++++++------------
 1 file changed, 19 insertions(+), 34 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/change_periodicity.py b/SciDataTool/Methods/VectorField/change_periodicity.py
index 0d5af32..c6e4c4e 100644
--- a/SciDataTool/Methods/VectorField/change_periodicity.py
+++ b/SciDataTool/Methods/VectorField/change_periodicity.py
@@ -28,7 +28,6 @@ def change_periodicity(
     """
 
     DataLinspace = import_class("SciDataTool.Classes", "DataLinspace")
-    DataPattern = import_class("SciDataTool.Classes", "DataPattern")
 
     # Get axes list in original VectorField
     # Assumes axes are the following: time, angle, z and z is DataPattern or radius
@@ -73,51 +72,40 @@ def change_periodicity(
     else:
         angle_arg = "angle[oneperiod]"
 
-    # Get argument list for call to get_rphiz_along on one time and space period
+    # Get argument list to get components on one time and space period
     arg_list = [time_arg, angle_arg]
-    if isinstance(self.get_axes()[-1], DataPattern):
-        arg_list.append("z[smallestpattern]")
-    else:
-        arg_list.append(self.get_axes()[-1].name)
+    for axis in axes_list[2:]:
+        # Other axes are kept as they are stored
+        arg_list.append(axis.name + "[smallestperiod]")
+
+    # Replicated axes (or semi periods replaced by periods)
+    is_new_t = Nrep_t > 1 or (is_aper_t and not is_aper_t_new)
+    is_new_a = Nrep_a > 1 or (is_aper_a and not is_aper_a_new)
 
-    # Get axes values on requested axes
-    result = self.get_rphiz_along(*arg_list, is_squeeze=False)
     axes_list_new = list()
     for axis in axes_list:
         axis_new = axis.copy()
         # Change time periodicity
-        if Nrep_t > 1 and axis.name == "time":
+        if is_new_t and axis.name == "time":
             axis_new.symmetries = {"period": per_t_new}
-            time_full = result["time"]
+            time_full = axis.get_values()[:Nt]
             if isinstance(axis_new, DataLinspace):
-                if axis.include_endpoint:
-                    t_final = time_full[-1] + time_full[1] - time_full[0]
-                else:
-                    t_final = axis.final
                 axis_new.number = Nt
-                axis_new.final = Nrep_t * t_final
+                axis_new.step = None
+                axis_new.final = time_full[-1] + time_full[1] - time_full[0]
                 axis_new.include_endpoint = False
             else:
-                t_final = time_full[-1] + time_full[1] - time_full[0]
-                for k in range(1, Nrep_t):
-                    time_full = np.append(time_full, result["time"] + k * t_final)
                 axis_new.values = time_full
         # Change angle periodicity
-        if Nrep_a > 1 and axis.name == "angle":
+        if is_new_a and axis.name == "angle":
             axis_new.symmetries = {"period": per_a_new}
-            angle_full = result["angle"]
+            angle_full = axis.get_values()[:Na]
             if isinstance(axis_new, DataLinspace):
-                if axis.include_endpoint:
-                    a_final = angle_full[-1] + angle_full[1] - angle_full[0]
-                else:
-                    a_final = axis.final
                 axis_new.number = Na
-                axis_new.final = Nrep_a * a_final
+                axis_new.step = None
+                axis_new.final = angle_full[-1] + angle_full[1] - angle_full[0]
                 axis_new.include_endpoint = False
             else:
-                a_final = angle_full[-1] + angle_full[1] - angle_full[0]
-                for k in range(1, Nrep_a):
-                    angle_full = np.append(angle_full, result["angle"] + k * a_final)
                 axis_new.values = angle_full
 
         axes_list_new.append(axis_new)
@@ -126,12 +114,9 @@ def change_periodicity(
     for comp, data in self.components.items():
 
         # Duplicate values
-        if Nrep_t > 1 and Nrep_a > 1:
-            val_new = np.tile(result[comp], (Nrep_t, Nrep_a, 1))
-        elif Nrep_t > 1:
-            val_new = np.tile(result[comp], (Nrep_t, 1, 1))
-        elif Nrep_a > 1:
-            val_new = np.tile(result[comp], (1, Nrep_a, 1))
+        values = data.get_along(*arg_list, is_squeeze=False)[data.symbol]
+        Nrep = [Nrep_t, Nrep_a] + [1] * (values.ndim - 2)
+        val_new = np.tile(values, Nrep)
 
         # Create new data object with updated periodicities
         data_new = type(data)(
-- 
2.43.0


From 24b63eb1df4884821b335af79e725ac60f25af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:42 +0000
Subject: [PATCH 078/113] fix: find the key of each label part when items are
 shared between filter keys

---
 SciDataTool/Methods/Data1D/check_filter.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/check_filter.py b/SciDataTool/Methods/Data1D/check_filter.py
index 8e45899..81372b1 100644
--- a/SciDataTool/Methods/Data1D/check_filter.py
+++ b/SciDataTool/Methods/Data1D/check_filter.py
@@ -1,3 +1,5 @@
+from itertools import permutations
+
 from SciDataTool.Functions import AxisError
 
 
@@ -12,9 +14,8 @@ def check_filter(self):
     keys: list
         list of filter keys in same order as in values
     """
-    keys = []
-    for i, value in enumerate(self.values):
-        items = value.split(self.delimiter)
+    items_list = [value.split(self.delimiter) for value in self.values]
+    for items in items_list:
         if len(items) != len(self.filter.keys()):
             raise AxisError("Filter is not correctly defined")
         for item in items:
@@ -22,9 +23,16 @@ def check_filter(self):
             for key in self.filter:
                 if item in self.filter[key]:
                     is_match = True
-                    if i == 0:
-                        keys.append(key)
             if not is_match:
                 raise AxisError("Missing item in filter: " + item)
 
-    return keys
+    # Find the key describing each position (an item can be found in several keys)
+    for keys in permutations(self.filter):
+        if all(
+            item in self.filter[key]
+            for items in items_list
+            for item, key in zip(items, keys)
+        ):
+            return list(keys)
+
+    raise AxisError("Filter is not correctly defined")
-- 
2.43.0


From a3324a615866034d77915c4f51c862194e865e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:48 +0000
Subject: [PATCH 079/113] fix: use the synthesis dictionary given by the user
 in orthogonal matching pursuit

---
 SciDataTool/Functions/omp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/omp.py b/SciDataTool/Functions/omp.py
index d73e8c5..ea72218 100644
--- a/SciDataTool/Functions/omp.py
+++ b/SciDataTool/Functions/omp.py
@@ -152,6 +152,7 @@ def omp(
 
     if dictionary is None:
         dictionary_decomp = comp_dictionary(n, M)
+        dictionary_synth = comp_dictionary(n, arange(n))
     else:
         dictionary_decomp = dictionary[0]
         dictionary_synth = dictionary[1]
@@ -172,8 +173,6 @@ def omp(
             X=dictionary_decomp, y=Y, n_nonzero_coefs=n_coefs, precompute=precompute
         )
 
-    dictionary_synth = comp_dictionary(n, arange(n))
-
     Y_full = dictionary_synth @ sparse_decomposition
 
     if return_path:
-- 
2.43.0


From d92844e83ee81f4c7d4129e864b0215b0b72cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:37 +0000
Subject: [PATCH 080/113] fix: support fields whose time axis comes second in
 orthogonal matching pursuit

---
 SciDataTool/Methods/DataND/orthogonal_mp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/orthogonal_mp.py b/SciDataTool/Methods/DataND/orthogonal_mp.py
index ab82eda..13edc5e 100644
--- a/SciDataTool/Methods/DataND/orthogonal_mp.py
+++ b/SciDataTool/Methods/DataND/orthogonal_mp.py
@@ -30,6 +30,7 @@ def orthogonal_mp(
 
     axes_name = [self.axes[i].name for i in range(nombre_axes)]
     assert "time" in axes_name, "There is no time axe"
+    is_time_last = axes_name.index("time") == 1
     axes_name.remove("time")
 
     # Extract the axes
@@ -42,7 +43,7 @@ def orthogonal_mp(
     n = len(Time.values)
 
     # Stack the signals into the columns of the matrix Y (n,n_targets)
-    Y = self.values
+    Y = self.values.T if is_time_last else self.values
 
     # Compute the OMP
     Y_full = omp(Y, M, n, n_coefs=n_coefs, precompute=precompute, dictionary=dictionary)
@@ -62,8 +63,8 @@ def orthogonal_mp(
             name=self.name,
             symbol=self.symbol,
             unit=self.unit,
-            axes=[Time, Angle],
-            values=Y_full,
+            axes=[Angle, Time] if is_time_last else [Time, Angle],
+            values=Y_full.T if is_time_last else Y_full,
             is_real=self.is_real,
         )
 
-- 
2.43.0


From cf55bfcc2190fba9830875e129bd3e56b4ff002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:42 +0000
Subject: [PATCH 081/113] fix: keep the real data flag when building a dual
 object

---
 SciDataTool/Methods/DataFreq/to_datadual.py | 1 +
 SciDataTool/Methods/DataTime/to_datadual.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/SciDataTool/Methods/DataFreq/to_datadual.py b/SciDataTool/Methods/DataFreq/to_datadual.py
index 492c0be..6e47797 100644
--- a/SciDataTool/Methods/DataFreq/to_datadual.py
+++ b/SciDataTool/Methods/DataFreq/to_datadual.py
@@ -23,6 +23,7 @@ def to_datadual(self, datatime=None):
         normalizations=self.normalizations.copy(),
         axes_df=self.axes,
         values_df=self.values,
+        is_real=self.is_real,
     )
 
     # Add time/space data (from input or using ifft)
diff --git a/SciDataTool/Methods/DataTime/to_datadual.py b/SciDataTool/Methods/DataTime/to_datadual.py
index b3f2da8..8249724 100644
--- a/SciDataTool/Methods/DataTime/to_datadual.py
+++ b/SciDataTool/Methods/DataTime/to_datadual.py
@@ -23,6 +23,7 @@ def to_datadual(self, datafreq=None):
         normalizations=self.normalizations.copy(),
         axes_dt=self.axes,
         values_dt=self.values,
+        is_real=self.is_real,
     )
 
     # Add fourier data (from input or using fft)
-- 
2.43.0


From 31837e0213972373a0c3507e9b4fd91d1d36a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:12 +0000
Subject: [PATCH 082/113] fix: find the axes of both domains of a dual object
 by name

---
 SciDataTool/Methods/DataDual/get_axes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SciDataTool/Methods/DataDual/get_axes.py b/SciDataTool/Methods/DataDual/get_axes.py
index b0eb845..4508238 100644
--- a/SciDataTool/Methods/DataDual/get_axes.py
+++ b/SciDataTool/Methods/DataDual/get_axes.py
@@ -22,6 +22,11 @@ def get_axes(self, *args):
             for axis in axes:
                 if axis.name == name:
                     axes_list.append(axis)
+            if name not in [axis.name for axis in axes]:
+                # Axis of the domain which was not used last
+                for axis in (self.axes_dt or []) + (self.axes_df or []):
+                    if axis.name == name:
+                        axes_list.append(axis)
     else:
         axes_list = axes
 
-- 
2.43.0


From 62c63e773ccab1c7219c6ca59943e67cea50f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:00 +0000
Subject: [PATCH 083/113] fix: find the axes of dual objects before their first
 request

---
 SciDataTool/Methods/DataND/get_magnitude_along.py | 7 +++----
 SciDataTool/Methods/DataND/has_period.py          | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index bd2fc9a..763a58b 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -52,9 +52,8 @@ def get_magnitude_along(
         index_speed = None
         index_order = None
         args_freqs = ["freqs", "frequency", "time"]
-        for i, axis in enumerate(self.axes):  # Find frequency axis
-            if axis.name in args_freqs:
-                freq_name = axis.name
+        for axis in self.get_axes(*args_freqs):  # Find frequency axis
+            freq_name = axis.name
         if freq_name is not None:
             for i, arg in enumerate(args):
                 for name in args_freqs:
@@ -88,7 +87,7 @@ def get_magnitude_along(
                 )  # Then sum on freqs axis
         else:  # Try speed/order
             is_match = 0
-            for i, axis in enumerate(self.axes):  # Find frequency axis
+            for i, axis in enumerate(self.get_axes()):  # Find frequency axis
                 if axis.name == "speed":
                     is_match += 1
                     arg_speed = "speed"
diff --git a/SciDataTool/Methods/DataND/has_period.py b/SciDataTool/Methods/DataND/has_period.py
index e4e5b19..a4474e0 100644
--- a/SciDataTool/Methods/DataND/has_period.py
+++ b/SciDataTool/Methods/DataND/has_period.py
@@ -10,7 +10,7 @@ def has_period(self):
     """
     answer = False
 
-    for axis in self.axes:
+    for axis in self.get_axes():
 
         if axis.symmetries != {}:
             answer = True
-- 
2.43.0


From 27b8d3050fb7a32807f0447a7e1c7b05e098104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:48 +0000
Subject: [PATCH 084/113] fix: label plotted and exported axes with the unit of
 their values

---
 SciDataTool/Functions/Plot/get_axis_unit.py | 22 +++++++++++++++++
 SciDataTool/Methods/DataND/export_along.py  |  5 ++--
 SciDataTool/Methods/DataND/plot_2D_Data.py  | 27 ++++++---------------
 SciDataTool/Methods/DataND/plot_3D_Data.py  | 15 ++++++------
 4 files changed, 39 insertions(+), 30 deletions(-)
 create mode 100644 SciDataTool/Functions/Plot/get_axis_unit.py

diff --git a/SciDataTool/Functions/Plot/get_axis_unit.py b/SciDataTool/Functions/Plot/get_axis_unit.py
new file mode 100644
index 0000000..ca03818
--- /dev/null
+++ b/SciDataTool/Functions/Plot/get_axis_unit.py
@@ -0,0 +1,22 @@
+from SciDataTool.Functions.Plot import unit_dict
+
+
+def get_axis_unit(axis):
+    """Returns the unit to display for a requested axis
+
+    Parameters
+    ----------
+    axis : RequestedAxis
+        axis returned by get_along in "axes_list"
+
+    Returns
+    -------
+    unit of the values of the axis (empty if dimensionless)
+    """
+    unit = axis.unit
+    if unit == "SI" and axis.corr_unit is not None:
+        # No unit was requested: values are in the unit of the axis
+        unit = axis.corr_unit
+    if unit == "SI" and axis.name in unit_dict:
+        unit = unit_dict[axis.name]
+    return unit if unit != "dimless" else ""
diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index 4f51040..5fcad4a 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -1,4 +1,4 @@
-from SciDataTool.Functions.Plot import unit_dict
+from SciDataTool.Functions.Plot.get_axis_unit import get_axis_unit
 
 import csv
 import numpy as np
@@ -88,8 +88,7 @@ def export_along(
         axes_list_new = []
         slices = ""
         for axis in axes_list:
-            if axis.unit == "SI":
-                axis.unit = unit_dict[axis.name]
+            axis.unit = get_axis_unit(axis)
             if len(results[axis.name]) == 1:
                 slices += axis.name + "=" + str(results[axis.name][0])
             elif isinstance(results[axis.name], str):
diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 6420809..5e2e9c0 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -1,6 +1,6 @@
 from SciDataTool.Functions.Plot.plot_2D import plot_2D
+from SciDataTool.Functions.Plot.get_axis_unit import get_axis_unit
 from SciDataTool.Functions.Plot import (
-    unit_dict,
     norm_dict,
     axes_dict,
     fft_dict,
@@ -268,10 +268,7 @@ def plot_2D_Data(
             or (len(axis.values) == 1 and len(axes_list) == 1)
         ):
             if axis.unit == "SI":
-                if axis.name in unit_dict:
-                    axis_unit = unit_dict[axis.name]
-                else:
-                    axis_unit = axis.unit
+                axis_unit = get_axis_unit(axis)
                 if xlabel is None:
                     xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
                 main_axis_name = name
@@ -283,7 +280,7 @@ def plot_2D_Data(
                 else:
                     main_axis_name = axis.unit
             else:
-                axis_unit = axis.unit
+                axis_unit = get_axis_unit(axis)
                 if xlabel is None:
                     xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
                 main_axis_name = name
@@ -305,15 +302,10 @@ def plot_2D_Data(
                 xticklabels = None
                 xticks = None
         else:
-            if axis.corr_unit == "SI":
-                if axis.name in unit_dict:
-                    axis_unit = unit_dict[axis.name]
-                else:
-                    axis_unit = axis.unit
-            elif axis.corr_unit in norm_dict and axis.corr_unit != "Hz":
+            if axis.corr_unit in norm_dict and axis.corr_unit != "Hz":
                 axis_unit = norm_dict[axis.corr_unit]
             else:
-                axis_unit = axis.unit
+                axis_unit = get_axis_unit(axis)
 
             if isinstance(result_0[axis.name], str):
                 title2 += name + "=" + result_0[axis.name]
@@ -399,15 +391,10 @@ def plot_2D_Data(
                 if linestyles is None:
                     linestyles = ["dashed"]
                 n_curves = len(axis.values)
-                if axis.unit == "SI":
-                    if axis.name in unit_dict:
-                        axis_unit = unit_dict[axis.name]
-                    else:
-                        axis_unit = axis.unit
-                elif axis.unit in norm_dict:
+                if axis.unit in norm_dict and axis.unit != "Hz":
                     axis_unit = norm_dict[axis.unit]
                 else:
-                    axis_unit = axis.unit
+                    axis_unit = get_axis_unit(axis)
                 if len(d.axes[axis.index].get_values()) > 1:
                     legends += [
                         (
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index be9bea4..a7dc457 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -1,7 +1,8 @@
 from numpy.core.numeric import zeros_like
 from SciDataTool.Functions.Plot.plot_4D import plot_4D
 from SciDataTool.Functions.Plot.plot_3D import plot_3D
-from SciDataTool.Functions.Plot import unit_dict, norm_dict, axes_dict
+from SciDataTool.Functions.Plot.get_axis_unit import get_axis_unit
+from SciDataTool.Functions.Plot import norm_dict, axes_dict
 from SciDataTool.Functions.Load.import_class import import_class
 from SciDataTool.Functions.parser import read_input_strings
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
@@ -255,14 +256,14 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict[axis.name]
+        axis_unit = get_axis_unit(axis)
         if xlabel is None:
             xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
         if xlabel is None:
             xlabel = norm_dict[axis.unit]
     else:
-        axis_unit = axis.unit
+        axis_unit = get_axis_unit(axis)
         if xlabel is None:
             xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     if (
@@ -293,14 +294,14 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict[axis.name]
+        axis_unit = get_axis_unit(axis)
         if ylabel is None:
             ylabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
         if ylabel is None:
             ylabel = norm_dict[axis.unit]
     else:
-        axis_unit = axis.unit
+        axis_unit = get_axis_unit(axis)
         if ylabel is None:
             ylabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     if (
@@ -366,11 +367,11 @@ def plot_3D_Data(
             is_display = False
         if is_display:
             if axis.unit == "SI":
-                axis_unit = unit_dict[axis.name]
+                axis_unit = get_axis_unit(axis)
             elif axis.unit in norm_dict:
                 axis_unit = norm_dict[axis.unit]
             else:
-                axis_unit = axis.unit
+                axis_unit = get_axis_unit(axis)
 
             if isinstance(result[axis.name], str):
                 axis_str = result[axis.name]
-- 
2.43.0


From 72803d4520bbd9188ad2f4b8a1d531288417f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:02 +0000
Subject: [PATCH 085/113] fix: plot fields with a pattern axis without unique
 indices or sliced by value

---
 SciDataTool/Methods/DataND/plot_2D_Data.py      | 4 ++--
 SciDataTool/Methods/DataND/plot_3D_Data.py      | 4 ++--
 SciDataTool/Methods/VectorField/plot_2D_Data.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 5e2e9c0..179c032 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -325,7 +325,7 @@ def plot_2D_Data(
                     axis_str = axis_str.strip("[]")
 
                 index = None
-                if axis.is_pattern and len(axis.values) == 1:
+                if axis.is_pattern and axis.indices is not None and len(axis.values) == 1:
                     for axis_obj in self.get_axes():
                         if axis_obj.name == axis.name:
                             index = axis.indices[0]
@@ -342,7 +342,7 @@ def plot_2D_Data(
         is_display = True
         for axis in self.axes:
             if axis.name == axis_name:
-                if isinstance(axis, DataPattern) and len(axis.unique_indices) == 1:
+                if isinstance(axis, DataPattern) and axis.get_length(is_pattern=True) == 1:
                     is_display = False
         if is_display:
             if isinstance(axes_dict_other[axis_name][0], str):
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index a7dc457..aab27d5 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -397,7 +397,7 @@ def plot_3D_Data(
                     )
 
                 index = None
-                if axis.is_pattern and len(axis.values) == 1:
+                if axis.is_pattern and axis.indices is not None and len(axis.values) == 1:
                     for axis_obj in self.get_axes():
                         if axis_obj.name == axis.name:
                             index = axis.indices[0]
@@ -413,7 +413,7 @@ def plot_3D_Data(
         is_display = True
         for axis in self.axes:
             if axis.name == axis_name:
-                if isinstance(axis, DataPattern) and len(axis.unique_indices) == 1:
+                if isinstance(axis, DataPattern) and axis.get_length(is_pattern=True) == 1:
                     is_display = False
         if is_display:
             if isinstance(axes_dict_other[axis_name][0], str):
diff --git a/SciDataTool/Methods/VectorField/plot_2D_Data.py b/SciDataTool/Methods/VectorField/plot_2D_Data.py
index 3a13017..51b0d5e 100644
--- a/SciDataTool/Methods/VectorField/plot_2D_Data.py
+++ b/SciDataTool/Methods/VectorField/plot_2D_Data.py
@@ -244,7 +244,7 @@ def plot_2D_Data(
             is_display = True
             for axis in self.get_axes():
                 if axis.name == axis_name:
-                    if isinstance(axis, DataPattern) and len(axis.unique_indices) == 1:
+                    if isinstance(axis, DataPattern) and axis.get_length(is_pattern=True) == 1:
                         is_display = False
             if is_display:
                 if isinstance(axes_dict_other[axis_name][0], str):
-- 
2.43.0


From fc848c2b1e074d404399543031d92b7a891a7802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:23 +0000
Subject: [PATCH 086/113] fix: plot along the requested axis whatever the order
 and size of the other axes

---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 103 ++++++++++-----------
 1 file changed, 51 insertions(+), 52 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 179c032..4ef27bb 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -15,7 +15,6 @@ from numpy import (
     squeeze,
     split,
     array,
-    where,
     unique,
     nanmax as np_max,
     array2string,
@@ -212,35 +211,54 @@ def plot_2D_Data(
     # Extract field and axes
     Xdatas = []
     Ydatas = []
+    dims_list = []
     data_list2 = [self] + data_list
     for i, d in enumerate(data_list2):
         if is_fft or "dB" in unit:
             result = d.get_magnitude_along(
                 *arg_list_along, axis_data=axis_data, unit=unit, is_norm=is_norm
             )
-            if i == 0:
-                axes_list = result.pop("axes_list")
-                axes_dict_other = result.pop("axes_dict_other")
-                result_0 = result
         else:
             result = d.get_along(
                 *arg_list_along, axis_data=axis_data, unit=unit, is_norm=is_norm
             )
-            if i == 0:
-                axes_list = result.pop("axes_list")
-                axes_dict_other = result.pop("axes_dict_other")
-                result_0 = result
+        if i == 0:
+            axes_list = result["axes_list"]
+            axes_dict_other = result["axes_dict_other"]
+            result_0 = result
+            # Draw along the first requested axis which is neither sliced nor overlaid
+            axes_drawn = [
+                axis
+                for name in axes_names
+                for axis in axes_list
+                if axis.name == name
+                and not isinstance(result[name], str)
+                and len(result[name]) > 1
+            ]
+            if axes_drawn == []:
+                main_axis = axes_list[0]
+            else:
+                main_axis = next(
+                    (axis for axis in axes_drawn if axis.extension != "list"),
+                    axes_drawn[0],
+                )
+        # Axes along each dimension of the field
+        dims_list.append(
+            [
+                axis.name
+                for axis in sorted(result["axes_list"], key=lambda axis: axis.index)
+                if not isinstance(result[axis.name], str)
+                and len(result[axis.name]) > 1
+            ]
+        )
         Ydatas.append(result.pop(d.symbol))
-        # in string case not overlay, Xdatas is a linspace
-        if (
-            axes_list[list(result.keys()).index(axes_names[0])].is_components
-            and axes_list[list(result.keys()).index(axes_names[0])].extension != "list"
-        ):
+        # in string case, Xdatas is a linspace
+        if main_axis.is_components:
             xdata = linspace(
-                0, len(result[axes_names[0]]) - 1, len(result[axes_names[0]])
+                0, len(result[main_axis.name]) - 1, len(result[main_axis.name])
             )
         else:
-            xdata = result[axes_names[0]]
+            xdata = result[main_axis.name]
         Xdatas.append(xdata)
 
     # Build xlabel and title
@@ -253,20 +271,7 @@ def plot_2D_Data(
             name = axes_dict[axis.name]
         else:
             name = axis.name
-        if (
-            axis.extension
-            in [
-                "whole",
-                "interval",
-                "oneperiod",
-                "antiperiod",
-                "smallestperiod",
-                "axis_data",
-                "list",
-            ]
-            and len(axis.values) > 1
-            or (len(axis.values) == 1 and len(axes_list) == 1)
-        ):
+        if axis is main_axis:
             if axis.unit == "SI":
                 axis_unit = get_axis_unit(axis)
                 if xlabel is None:
@@ -292,16 +297,13 @@ def plot_2D_Data(
                 xticks = [i * round(np_max(axis.values) / 6) for i in range(7)]
             else:
                 xticks = None
-            if (
-                axes_list[list(result.keys()).index(axes_names[0])].is_components
-                and not self.get_axes()[0].is_overlay
-            ):
-                xticklabels = result[axes_names[0]]
+            if axis.is_components and not self.get_axes()[0].is_overlay:
+                xticklabels = result_0[axis.name]
                 xticks = Xdatas[0]
             else:
                 xticklabels = None
                 xticks = None
-        else:
+        elif axis.name not in dims_list[0]:
             if axis.corr_unit in norm_dict and axis.corr_unit != "Hz":
                 axis_unit = norm_dict[axis.corr_unit]
             else:
@@ -386,8 +388,13 @@ def plot_2D_Data(
     for i, d in enumerate(data_list2):
         is_overlay = False
         for axis in axes_list:
-            if axis.extension == "list" and len(axis.values) > 1:
+            if (
+                axis is not main_axis
+                and axis.extension == "list"
+                and axis.name in dims_list[0]
+            ):
                 is_overlay = True
+                overlay_name = axis.name
                 if linestyles is None:
                     linestyles = ["dashed"]
                 n_curves = len(axis.values)
@@ -432,12 +439,9 @@ def plot_2D_Data(
     # Split Ydatas if the plot overlays several curves
     if is_overlay:
         Ydata = []
-        for d in Ydatas:
-            if d.ndim != 1:
-                axis_index = where(array(d.shape) == n_curves)[0]
-                if axis_index.size > 1:
-                    print("WARNING, several axes with same dimensions")
-                Ydata += split(d, n_curves, axis=axis_index[-1])
+        for d, dims in zip(Ydatas, dims_list):
+            if overlay_name in dims:
+                Ydata += split(d, n_curves, axis=dims.index(overlay_name))
             else:
                 Ydata += [d]
         Ydatas = [squeeze(d) for d in Ydata]
@@ -499,13 +503,10 @@ def plot_2D_Data(
         else:
             result = self.get_along(*arg_list_ovl, unit=unit, axis_data=axis_data)
         Y_overall = result[self.symbol]
-        # in string case not overlay, Xdatas is a linspace
-        if (
-            axes_list[list(result.keys()).index(axes_names[0])].is_components
-            and axes_list[list(result.keys()).index(axes_names[0])].extension != "list"
-        ):
+        # in string case, Xdatas is a linspace
+        if main_axis.is_components:
             xdata = linspace(
-                0, len(result[axes_names[0]]) - 1, len(result[axes_names[0]])
+                0, len(result[main_axis.name]) - 1, len(result[main_axis.name])
             )
         else:
             xdata = result[list(result)[0]]
@@ -703,9 +704,7 @@ def plot_2D_Data(
             len(xticks) == 0
             or (
                 len(xticks) > 20
-                and not axes_list[
-                    list(result.keys()).index(axes_names[0])
-                ].is_components
+                and not main_axis.is_components
             )
             or not is_auto_ticks
         ):
-- 
2.43.0


From 43cd6c9bc8c924e00a6b3ba853b8d69289e170bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:58 +0000
Subject: [PATCH 087/113] fix: give all the slices in the titles of plots

---
 SciDataTool/Methods/DataND/plot_2D_Data.py      | 9 +++------
 SciDataTool/Methods/DataND/plot_3D_Data.py      | 2 +-
 SciDataTool/Methods/VectorField/plot_2D_Data.py | 2 +-
 3 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 4ef27bb..5529454 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -310,7 +310,7 @@ def plot_2D_Data(
                 axis_unit = get_axis_unit(axis)
 
             if isinstance(result_0[axis.name], str):
-                title2 += name + "=" + result_0[axis.name]
+                title2 += name + "=" + result_0[axis.name] + ", "
             else:
                 if isinstance(result_0[axis.name][0], str):
                     axis_str = result_0[axis.name][0]
@@ -348,7 +348,7 @@ def plot_2D_Data(
                     is_display = False
         if is_display:
             if isinstance(axes_dict_other[axis_name][0], str):
-                title3 += axis_name + "=" + axes_dict_other[axis_name][0]
+                title3 += axis_name + "=" + axes_dict_other[axis_name][0] + ", "
             else:
                 if axes_dict_other[axis_name][0] > 10:
                     fmt = "{:.5g}"
@@ -462,10 +462,7 @@ def plot_2D_Data(
                 )
 
         # Concatenate all title parts
-        if is_overlay:
-            title = title1 + title3
-        else:
-            title = title1 + title2 + title3
+        title = title1 + title2 + title3
 
         # Remove last coma due to title2 or title3
         title = title.rstrip(", ")
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index aab27d5..d6eb7eb 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -417,7 +417,7 @@ def plot_3D_Data(
                     is_display = False
         if is_display:
             if isinstance(axes_dict_other[axis_name][0], str):
-                axis_str = axes_dict_other[axis_name][0]
+                axis_str = axes_dict_other[axis_name][0] + ", "
             else:
                 if axes_dict_other[axis_name][0] > 10:
                     fmt = "{:.5g}"
diff --git a/SciDataTool/Methods/VectorField/plot_2D_Data.py b/SciDataTool/Methods/VectorField/plot_2D_Data.py
index 51b0d5e..8235a36 100644
--- a/SciDataTool/Methods/VectorField/plot_2D_Data.py
+++ b/SciDataTool/Methods/VectorField/plot_2D_Data.py
@@ -248,7 +248,7 @@ def plot_2D_Data(
                         is_display = False
             if is_display:
                 if isinstance(axes_dict_other[axis_name][0], str):
-                    title3 += axis_name + "=" + axes_dict_other[axis_name][0]
+                    title3 += axis_name + "=" + axes_dict_other[axis_name][0] + ", "
                 else:
                     title3 += (
                         axis_name
-- 
2.43.0


From a1fe580631961db601e948e2a68f0b4b20345d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:32 +0000
Subject: [PATCH 088/113] fix: align the values of exported files with the
 requested axes

---
 SciDataTool/Methods/DataND/export_along.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index 5fcad4a..ba5029d 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -82,7 +82,8 @@ def export_along(
             results = self.get_along(
                 *args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
-        axes_list = results["axes_list"]
+        # Axes in the order of the dimensions of the field
+        axes_list = sorted(results["axes_list"], key=lambda axis: axis.index)
 
         # Remove slice axes
         axes_list_new = []
@@ -175,9 +176,8 @@ def export_along(
                     if len(Ydatas) == 1:
                         field = np.array(Ydatas[0])
                     else:
-                        field = np.array(Ydatas)
-                    if field.shape[0] != len(Xdata[0]):
-                        field = field.T
+                        # One column per curve
+                        field = np.array(Ydatas).T
                     matrix = format_matrix(
                         np.column_stack((np.array(Xdata[0]).T, field)).astype("str"),
                         CHAR_LIST,
-- 
2.43.0


From 6c4f93b816cc6517cd1da658e33cee7e14a7348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:48 +0000
Subject: [PATCH 089/113] fix: separate the slices and write the unit once in
 exported files

---
 SciDataTool/Methods/DataND/export_along.py | 30 ++++++++++------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index ba5029d..fe148d3 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -87,19 +87,20 @@ def export_along(
 
         # Remove slice axes
         axes_list_new = []
-        slices = ""
+        slices_list = []
         for axis in axes_list:
             axis.unit = get_axis_unit(axis)
-            if len(results[axis.name]) == 1:
-                slices += axis.name + "=" + str(results[axis.name][0])
-            elif isinstance(results[axis.name], str):
-                slices += axis.name + "=" + results[axis.name]
+            if isinstance(results[axis.name], str):
+                slices_list.append(axis.name + "=" + results[axis.name])
+            elif len(results[axis.name]) == 1:
+                slices_list.append(axis.name + "=" + str(results[axis.name][0]))
             else:
                 axes_list_new.append(axis)
         for axis in results["axes_dict_other"]:
-            if slices != "":
-                slices = slices + ", "
-            slices += axis + "=" + str(results["axes_dict_other"][axis][0])
+            slices_list.append(
+                axis + "=" + str(results["axes_dict_other"][axis][0])
+            )
+        slices = ", ".join(slices_list)
         if slices != "":
             slices = "sliced at " + slices
 
@@ -129,10 +130,8 @@ def export_along(
                     + axes_list_new[2].name
                     + str(axes_list_new[2].values[i])
                 )
-                if slices == "":
-                    slices = "sliced at "
                 slices_i = (
-                    slices
+                    (slices + ", " if slices != "" else "sliced at ")
                     + axes_list_new[2].name
                     + "="
                     + str(axes_list_new[2].values[i])
@@ -145,14 +144,13 @@ def export_along(
             ) as my_csv:
                 csvWriter = csv.writer(my_csv, delimiter=",")
                 # First line: meta-data
-                if unit == "SI":
-                    unit = self.unit
-                if "dB" in unit:
-                    unit += (
+                unit_str = unit if unit != "SI" else self.unit
+                if "dB" in unit and "ref" in self.normalizations:
+                    unit_str += (
                         " re. " + str(self.normalizations["ref"].ref) + " " + self.unit
                     )
 
-                meta_data = [self.symbol, self.name, "[" + unit + "]", slices_i]
+                meta_data = [self.symbol, self.name, "[" + unit_str + "]", slices_i]
                 csvWriter.writerow(meta_data)
 
                 if is_2D:
-- 
2.43.0


From 879d3880996a0fb39ae6cbb3b1b779445d9efcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:32 +0000
Subject: [PATCH 090/113] fix: draw the magnitude of Fourier components as
 curves

---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 5529454..4ffbba6 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -22,6 +22,8 @@ from numpy import (
     nanmin as np_min,
     linspace,
     argsort,
+    abs as np_abs,
+    iscomplexobj,
     argmax,
     take,
     log10,
@@ -251,7 +253,13 @@ def plot_2D_Data(
                 and len(result[axis.name]) > 1
             ]
         )
-        Ydatas.append(result.pop(d.symbol))
+        Ydata = result.pop(d.symbol)
+        if iscomplexobj(Ydata) and any(
+            "wavenumber" in s or "freqs" in s for s in arg_list
+        ):
+            # Draw magnitude of Fourier components
+            Ydata = np_abs(Ydata)
+        Ydatas.append(Ydata)
         # in string case, Xdatas is a linspace
         if main_axis.is_components:
             xdata = linspace(
-- 
2.43.0


From b555c8055e9e7b775b3aadd12467f85f689941b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:37 +0000
Subject: [PATCH 091/113] fix: draw the heights of 3D plots on the requested
 axes

---
 SciDataTool/Methods/DataND/plot_3D_Data.py | 31 +++++++++++++++-------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index d6eb7eb..343dc9d 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -203,15 +203,26 @@ def plot_3D_Data(
         is_same_size = False
     axes_list = result["axes_list"]
     axes_dict_other = result["axes_dict_other"]
-    if axes_list[list(result.keys()).index(axes_names[0])].is_components:
+    # Draw along requested axes which are not sliced first
+    axes_names = sorted(
+        [axis.name for name in axes_names for axis in axes_list if axis.name == name],
+        key=lambda name: isinstance(result[name], str) or len(result[name]) == 1,
+    )
+    axis_x, axis_y = [
+        axis for name in axes_names[:2] for axis in axes_list if axis.name == name
+    ]
+    if axis_x.is_components:
         Xdata = linspace(0, len(result[axes_names[0]]) - 1, len(result[axes_names[0]]))
     else:
         Xdata = result[axes_names[0]]
-    if axes_list[list(result.keys()).index(axes_names[1])].is_components:
+    if axis_y.is_components:
         Ydata = linspace(0, len(result[axes_names[1]]) - 1, len(result[axes_names[1]]))
     else:
         Ydata = result[axes_names[1]]
     Zdata = result[self.symbol]
+    if Zdata.ndim == 2 and axis_x.index > axis_y.index:
+        # Axes requested in the opposite order to the dimensions of the field
+        Zdata = Zdata.T
     if Xdata.size == 1:
         Zdata = Zdata[None, ...]
     if Ydata.size == 1:
@@ -250,7 +261,7 @@ def plot_3D_Data(
 
     # Build labels and titles
     title1 = self.name[0].capitalize() + self.name[1:] + " "
-    axis = axes_list[list(result.keys()).index(axes_names[0])]
+    axis = axis_x
     if axis.name in axes_dict:
         name = axes_dict[axis.name]
     else:
@@ -288,7 +299,7 @@ def plot_3D_Data(
         xticklabels = None
         annotations_x = zeros_like(Xdata)
 
-    axis = axes_list[list(result.keys()).index(axes_names[1])]
+    axis = axis_y
     if axis.name in axes_dict:
         name = axes_dict[axis.name]
     else:
@@ -500,8 +511,8 @@ def plot_3D_Data(
             if len(yticks) > 1:
                 if y_min is None:
                     if (
-                        axes_list[1].name == "wavenumber"
-                        or axes_list[1].corr_name == "wavenumber"
+                        axis_y.name == "wavenumber"
+                        or axis_y.corr_name == "wavenumber"
                     ):
                         y_min = max(yticks[0], -100)
                     else:
@@ -510,8 +521,8 @@ def plot_3D_Data(
                     y_min = max(y_min, yticks[0])
                 if y_max is None:
                     if (
-                        axes_list[1].name == "wavenumber"
-                        or axes_list[1].corr_name == "wavenumber"
+                        axis_y.name == "wavenumber"
+                        or axis_y.corr_name == "wavenumber"
                     ):
                         y_max = min(yticks[-1], 100)
                     else:
@@ -544,12 +555,12 @@ def plot_3D_Data(
 
         if len(xticks) == 0 or (
             logical_and(xticks > x_min, xticks < x_max).sum() > 20
-            and not axes_list[list(result.keys()).index(axes_names[0])].is_components
+            and not axis_x.is_components
         ):
             xticks = None
         if len(yticks) == 0 or (
             logical_and(yticks > y_min, yticks < y_max).sum() > 20
-            and not axes_list[list(result.keys()).index(axes_names[1])].is_components
+            and not axis_y.is_components
         ):
             yticks = None
 
-- 
2.43.0


From b895cd341aa21b519b31eddebeccb4a9a74ea95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:45 +0000
Subject: [PATCH 092/113] fix: draw pcolormesh maps of any shape

---
 SciDataTool/Functions/Plot/plot_3D.py      |  2 +-
 SciDataTool/Methods/DataND/plot_3D_Data.py | 11 ++++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index 5da8692..d0f4a4a 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -285,7 +285,7 @@ def plot_3D(
         ax.set_ylim([y_min, y_max])
     elif type_plot == "pcolormesh":
         if is_shading_flat:
-            shading = "flat"
+            shading = "nearest"
         else:
             shading = "gouraud"
         if gamma==1:
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index 343dc9d..288a41d 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -661,17 +661,14 @@ def plot_3D_Data(
             if type_plot is None:
                 type_plot = "pcolor"
             if is_shading_flat and type_plot == "pcolormesh":
-                # 0.5 offset
+                # Cells centered on samples
                 if 0 in flat_indices:
-                    Xdata = Xdata - 0.5
                     x_min -= 0.5
-                    x_max -= 0.5
+                    x_max += 0.5
                 if 1 in flat_indices:
-                    Ydata = Ydata - 0.5
                     y_min -= 0.5
-                    y_max -= 0.5
-                Ydata, Xdata = meshgrid(Ydata, Xdata)
-            if type_plot == "pcolor":
+                    y_max += 0.5
+            if type_plot in ["pcolor", "pcolormesh"]:
                 Zdata = Zdata.T
             plot_3D(
                 Xdata,
-- 
2.43.0


From dca35698cabb5dd6da93fb7b3fa59fadd5ffa1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:45 +0000
Subject: [PATCH 093/113] fix: draw the stem plots of Fourier components

---
 SciDataTool/Methods/DataND/plot_3D_Data.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index 288a41d..adafe37 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -180,7 +180,11 @@ def plot_3D_Data(
 
     # Extract field and axes
     if is_fft:
-        if is_2D_view:
+        # Largest harmonics are defined along both Fourier axes
+        is_stem = (
+            not is_2D_view and "freqs" in axes_names and "wavenumber" in axes_names
+        )
+        if not is_stem:
             result = self.get_magnitude_along(
                 *arg_list_along, axis_data=axis_data, unit=unit, is_norm=is_norm
             )
@@ -200,6 +204,7 @@ def plot_3D_Data(
 
     if type_plot == "scatter" and not is_fft:
         is_fft = True
+        is_stem = False
         is_same_size = False
     axes_list = result["axes_list"]
     axes_dict_other = result["axes_dict_other"]
@@ -227,7 +232,7 @@ def plot_3D_Data(
         Zdata = Zdata[None, ...]
     if Ydata.size == 1:
         Zdata = Zdata[..., None]
-    if is_fft and not is_2D_view:
+    if is_fft and is_stem:
         X_flat = Xdata
         Y_flat = Ydata
         Z_flat = Zdata
@@ -470,17 +475,22 @@ def plot_3D_Data(
             threshold = max(10 * log10(thresh) + abs(np_max(Zdata)), 0)
         else:
             threshold = abs(thresh * np_max(Zdata))
-        indices_x = np_any(where(Zdata > threshold, True, False), axis=1)
-        indices_y = np_any(where(Zdata > threshold, True, False), axis=0)
+        if is_stem:
+            # One value per component
+            indices_x = Zdata > threshold
+            indices_y = indices_x
+        else:
+            indices_x = np_any(where(Zdata > threshold, True, False), axis=1)
+            indices_y = np_any(where(Zdata > threshold, True, False), axis=0)
 
         if is_filter_x:
-            xticks = Xdata[indices_x]
+            xticks = unique(Xdata[indices_x])
             if xticklabels is not None:
                 xticklabels = xticklabels[indices_x]
         else:
             xticks = Xdata
         if is_filter_y:
-            yticks = Ydata[indices_y]
+            yticks = unique(Ydata[indices_y])
             if yticklabels is not None:
                 yticklabels = yticklabels[indices_y]
         else:
-- 
2.43.0


From 26637a7d21c466874ec6ba0d378c7907d201f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:09 +0000
Subject: [PATCH 094/113] fix: draw maps with descending axes

---
 SciDataTool/Functions/Plot/plot_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index d0f4a4a..3c583bd 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -243,10 +243,10 @@ def plot_3D(
         # Handle descending order axes (e.g. spectrogram of run-down in freq/rpm map)
         if Ydata[-1] < Ydata[0]:
             Ydata = Ydata[::-1]
-            Zdata = Zdata[:, ::-1]
+            Zdata = Zdata[::-1, :]
         if Xdata[-1] < Xdata[0]:
             Xdata = Xdata[::-1]
-            Zdata = Zdata[::-1, :]
+            Zdata = Zdata[:, ::-1]
         im = NonUniformImage(
             ax,
             interpolation=interpolation,
-- 
2.43.0


From ad48056b5d953ec9fa2ca274f40bdbead69af9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:28 +0000
Subject: [PATCH 095/113] fix: give converted data their own normalizations

---
 SciDataTool/Methods/DataFreq/conv.py                 |  4 +++-
 SciDataTool/Methods/DataFreq/freq_to_time.py         | 12 +++++++++---
 SciDataTool/Methods/DataFreq/sum.py                  |  4 +++-
 SciDataTool/Methods/DataFreq/to_datadual.py          |  4 +++-
 SciDataTool/Methods/DataND/change_referential.py     | 12 +++++++++---
 .../Methods/DataND/filter_spectral_leakage.py        | 12 +++++++++---
 SciDataTool/Methods/DataTime/time_to_freq.py         | 12 +++++++++---
 SciDataTool/Methods/DataTime/to_datadual.py          |  4 +++-
 .../Methods/VectorField/change_periodicity.py        |  4 +++-
 9 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/SciDataTool/Methods/DataFreq/conv.py b/SciDataTool/Methods/DataFreq/conv.py
index 5fe85bb..5371b70 100644
--- a/SciDataTool/Methods/DataFreq/conv.py
+++ b/SciDataTool/Methods/DataFreq/conv.py
@@ -78,7 +78,9 @@ def conv(
     if unit is None:
         unit = self.unit
     if normalizations is None:
-        normalizations = self.normalizations
+        normalizations = {
+            key: norm.copy() for key, norm in self.normalizations.items()
+        }
 
     # Compute spectrum orders resulting from convolution
     freqs_un, I0a, I0b, I1, I2 = get_conv_indices(
diff --git a/SciDataTool/Methods/DataFreq/freq_to_time.py b/SciDataTool/Methods/DataFreq/freq_to_time.py
index e344cb6..8a23244 100644
--- a/SciDataTool/Methods/DataFreq/freq_to_time.py
+++ b/SciDataTool/Methods/DataFreq/freq_to_time.py
@@ -48,7 +48,9 @@ def freq_to_time(self):
                     values=results["time"],
                     unit="s",
                     symmetries=axis.symmetries.copy(),
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 )
             elif axis.name == "wavenumber":
                 axis_new = Data1D(
@@ -57,7 +59,9 @@ def freq_to_time(self):
                     values=results["angle"],
                     unit="rad",
                     symmetries=axis.symmetries.copy(),
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 )
             else:
                 axis_new = axis.copy()
@@ -70,5 +74,7 @@ def freq_to_time(self):
             axes=Axes,
             values=values,
             is_real=self.is_real,
-            normalizations=self.normalizations.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
         )
diff --git a/SciDataTool/Methods/DataFreq/sum.py b/SciDataTool/Methods/DataFreq/sum.py
index f737114..71f75a0 100644
--- a/SciDataTool/Methods/DataFreq/sum.py
+++ b/SciDataTool/Methods/DataFreq/sum.py
@@ -72,7 +72,9 @@ def sum(
     if unit is None:
         unit = self.unit
     if normalizations is None:
-        normalizations = self.normalizations
+        normalizations = {
+            key: norm.copy() for key, norm in self.normalizations.items()
+        }
 
     # Compute spectrum orders resulting from convolution
     freqs_un, I0b = get_sum_indices(freqs1, freqs2, tol_freq)
diff --git a/SciDataTool/Methods/DataFreq/to_datadual.py b/SciDataTool/Methods/DataFreq/to_datadual.py
index 6e47797..cc316c9 100644
--- a/SciDataTool/Methods/DataFreq/to_datadual.py
+++ b/SciDataTool/Methods/DataFreq/to_datadual.py
@@ -20,7 +20,9 @@ def to_datadual(self, datatime=None):
         name=self.name,
         symbol=self.symbol,
         unit=self.unit,
-        normalizations=self.normalizations.copy(),
+        normalizations={
+            key: norm.copy() for key, norm in self.normalizations.items()
+        },
         axes_df=self.axes,
         values_df=self.values,
         is_real=self.is_real,
diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index 1a75a8a..f313ee8 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -227,7 +227,9 @@ def change_referential(
                     name="freqs",
                     unit="Hz",
                     values=freqs_store,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                     symmetries=dict(),  # Don't keep time symmetries, FFT inverse requests axis_data
                 )
 
@@ -238,7 +240,9 @@ def change_referential(
                     name="wavenumber",
                     unit="dimless",
                     values=wavenumber,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                     symmetries=axis.symmetries.copy(),
                 )
 
@@ -253,7 +257,9 @@ def change_referential(
         unit=self.unit,
         axes=axes_list_change,
         values=val_new,
-        normalizations=self.normalizations.copy(),
+        normalizations={
+            key: norm.copy() for key, norm in self.normalizations.items()
+        },
         is_real=is_real,
     )
 
diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 17667db..50ff7db 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -163,7 +163,9 @@ def filter_spectral_leakage(
                 name="freqs",
                 unit="Hz",
                 values=freqs_th_store,
-                normalizations=axes_list[0].normalizations,
+                normalizations={
+                    key: norm.copy() for key, norm in axes_list[0].normalizations.items()
+                },
                 symmetries=dict(),
             )
         )
@@ -174,7 +176,9 @@ def filter_spectral_leakage(
                     name="wavenumber",
                     unit="dimless",
                     values=result["wavenumber"],
-                    normalizations=axes_list[1].normalizations,
+                    normalizations={
+                        key: norm.copy() for key, norm in axes_list[1].normalizations.items()
+                    },
                     symmetries=dict(),
                 )
             )
@@ -195,7 +199,9 @@ def filter_spectral_leakage(
         unit=self.unit,
         axes=axes_list_filt,
         values=spectrum_filt,
-        normalizations=self.normalizations,
+        normalizations={
+            key: norm.copy() for key, norm in self.normalizations.items()
+        },
         is_real=is_real,
     )
 
diff --git a/SciDataTool/Methods/DataTime/time_to_freq.py b/SciDataTool/Methods/DataTime/time_to_freq.py
index 8dc4da1..c1be2c8 100644
--- a/SciDataTool/Methods/DataTime/time_to_freq.py
+++ b/SciDataTool/Methods/DataTime/time_to_freq.py
@@ -52,7 +52,9 @@ def time_to_freq(self):
                     values=results["freqs"],
                     unit="Hz",
                     symmetries=symmetries,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 ).to_linspace()
             elif axis.name == "angle":
                 if "antiperiod" in axis.symmetries:
@@ -65,7 +67,9 @@ def time_to_freq(self):
                     values=results["wavenumber"],
                     unit="dimless",
                     symmetries=symmetries,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 ).to_linspace()
             else:
                 axis_new = axis.copy()
@@ -77,5 +81,7 @@ def time_to_freq(self):
             axes=Axes,
             values=values,
             is_real=self.is_real,
-            normalizations=self.normalizations.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
         )
diff --git a/SciDataTool/Methods/DataTime/to_datadual.py b/SciDataTool/Methods/DataTime/to_datadual.py
index 8249724..5d2e6bd 100644
--- a/SciDataTool/Methods/DataTime/to_datadual.py
+++ b/SciDataTool/Methods/DataTime/to_datadual.py
@@ -20,7 +20,9 @@ def to_datadual(self, datafreq=None):
         name=self.name,
         symbol=self.symbol,
         unit=self.unit,
-        normalizations=self.normalizations.copy(),
+        normalizations={
+            key: norm.copy() for key, norm in self.normalizations.items()
+        },
         axes_dt=self.axes,
         values_dt=self.values,
         is_real=self.is_real,
diff --git a/SciDataTool/Methods/VectorField/change_periodicity.py b/SciDataTool/Methods/VectorField/change_periodicity.py
index c6e4c4e..23ad449 100644
--- a/SciDataTool/Methods/VectorField/change_periodicity.py
+++ b/SciDataTool/Methods/VectorField/change_periodicity.py
@@ -125,7 +125,9 @@ def change_periodicity(
             unit=data.unit,
             axes=axes_list_new,
             values=val_new,
-            normalizations=data.normalizations.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in data.normalizations.items()
+            },
             is_real=data.is_real,
         )
 
-- 
2.43.0


From f6c1cdcd9a0c68c31ece2467e3a09424ad7b167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:01 +0000
Subject: [PATCH 096/113] fix: share nothing between dual objects and the data
 they come from

---
 SciDataTool/Methods/DataFreq/to_datadual.py | 3 ++-
 SciDataTool/Methods/DataTime/to_datadual.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataFreq/to_datadual.py b/SciDataTool/Methods/DataFreq/to_datadual.py
index cc316c9..ec6458b 100644
--- a/SciDataTool/Methods/DataFreq/to_datadual.py
+++ b/SciDataTool/Methods/DataFreq/to_datadual.py
@@ -34,4 +34,5 @@ def to_datadual(self, datatime=None):
     datadual.axes_dt = datatime.axes
     datadual.values_dt = datatime.values
 
-    return datadual
+    # Nothing is shared with the original data
+    return datadual.copy()
diff --git a/SciDataTool/Methods/DataTime/to_datadual.py b/SciDataTool/Methods/DataTime/to_datadual.py
index 5d2e6bd..c5b2c04 100644
--- a/SciDataTool/Methods/DataTime/to_datadual.py
+++ b/SciDataTool/Methods/DataTime/to_datadual.py
@@ -34,4 +34,5 @@ def to_datadual(self, datafreq=None):
     datadual.axes_df = datafreq.axes
     datadual.values_df = datafreq.values
 
-    return datadual
+    # Nothing is shared with the original data
+    return datadual.copy()
-- 
2.43.0


From 9de7223d8d3ddf2670b5494211379468551eda60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:01 +0000
Subject: [PATCH 097/113] fix: give recovered data its own axes

---
 SciDataTool/Methods/DataND/orthogonal_mp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/orthogonal_mp.py b/SciDataTool/Methods/DataND/orthogonal_mp.py
index 13edc5e..9c23fb7 100644
--- a/SciDataTool/Methods/DataND/orthogonal_mp.py
+++ b/SciDataTool/Methods/DataND/orthogonal_mp.py
@@ -55,7 +55,7 @@ def orthogonal_mp(
             symbol=self.symbol,
             unit=self.unit,
             values=Y_full,
-            axes=[Time],
+            axes=[Time.copy()],
             is_real=self.is_real,
         )
     if nombre_axes == 2:
@@ -63,7 +63,9 @@ def orthogonal_mp(
             name=self.name,
             symbol=self.symbol,
             unit=self.unit,
-            axes=[Angle, Time] if is_time_last else [Time, Angle],
+            axes=[Angle.copy(), Time.copy()]
+            if is_time_last
+            else [Time.copy(), Angle.copy()],
             values=Y_full.T if is_time_last else Y_full,
             is_real=self.is_real,
         )
-- 
2.43.0


From aea110d6198a234cb75a6f39c607eab7e13fa3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:49 +0000
Subject: [PATCH 098/113] fix: recognize axes by their whole name when ordering
 requests

---
 SciDataTool/Functions/fix_axes_order.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/fix_axes_order.py b/SciDataTool/Functions/fix_axes_order.py
index ea6db07..15c7ca0 100644
--- a/SciDataTool/Functions/fix_axes_order.py
+++ b/SciDataTool/Functions/fix_axes_order.py
@@ -1,3 +1,5 @@
+from re import split
+
 from numpy import array
 from SciDataTool.Functions.Plot import fft_dict, ifft_dict
 
@@ -6,13 +8,15 @@ def fix_axes_order(axes_list, args):
     """Put args in same order as axes_list"""
     indices = []
     for j, arg in enumerate(args):
+        # Name of the axis, without normalization, values, operation or unit
+        name = split(r"->|[\[=<>{]", arg)[0].strip()
         for i, axis in enumerate(axes_list):
             if (
-                axis in arg
+                axis == name
                 or axis in fft_dict
-                and fft_dict[axis] in arg
+                and fft_dict[axis] == name
                 or axis in ifft_dict
-                and ifft_dict[axis] in arg
+                and ifft_dict[axis] == name
             ):
                 indices.append(i)
                 break
@@ -20,5 +24,5 @@ def fix_axes_order(axes_list, args):
         # axis was not in data -> keep same order
         return args
     else:
-        sort_indices = array(indices).argsort()
+        sort_indices = array(indices).argsort(kind="stable")
         return [args[i] for i in sort_indices]
-- 
2.43.0


From 34ee7d5a423829d40b96367bd705322c9f5f483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:59 +0000
Subject: [PATCH 099/113] fix: keep the order of the axes when a request names
 an unknown axis

---
 SciDataTool/Functions/fix_axes_order.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Functions/fix_axes_order.py b/SciDataTool/Functions/fix_axes_order.py
index 15c7ca0..b122e8e 100644
--- a/SciDataTool/Functions/fix_axes_order.py
+++ b/SciDataTool/Functions/fix_axes_order.py
@@ -20,9 +20,8 @@ def fix_axes_order(axes_list, args):
             ):
                 indices.append(i)
                 break
-    if len(indices) < len(args):
-        # axis was not in data -> keep same order
-        return args
-    else:
-        sort_indices = array(indices).argsort(kind="stable")
-        return [args[i] for i in sort_indices]
+        else:
+            # axis is not in data -> put it last
+            indices.append(len(axes_list))
+    sort_indices = array(indices, dtype=int).argsort(kind="stable")
+    return [args[i] for i in sort_indices]
-- 
2.43.0


From a9658aa58e0743362e0797ad1d3e3a0a07bd29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:49 +0000
Subject: [PATCH 100/113] fix: draw the overall curve along the axis of the
 figure

---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 4ffbba6..e09badd 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -487,18 +487,18 @@ def plot_2D_Data(
             op = "=sum"
         else:
             op = "=rss"
-        arg_list_ovl = [0 for i in range(len(arg_list))]
+        arg_list_ovl = [0 for i in range(len(arg_list_along))]
         # Add sum to overall_axes
         for axis in overall_axes:
             is_match = False
-            for i, arg in enumerate(arg_list):
-                if axis in arg:
+            for i, arg in enumerate(read_input_strings(arg_list_along, axis_data)):
+                if axis == arg.name:
                     is_match = True
                     arg_list_ovl[i] = axis + op
             if not is_match:
                 arg_list_ovl.append(axis + op)
         # Add other requested axes
-        for i, arg in enumerate(arg_list):
+        for i, arg in enumerate(arg_list_along):
             if arg_list_ovl[i] == 0:
                 arg_list_ovl[i] = arg
         if is_fft or "dB" in unit:
@@ -514,7 +514,7 @@ def plot_2D_Data(
                 0, len(result[main_axis.name]) - 1, len(result[main_axis.name])
             )
         else:
-            xdata = result[list(result)[0]]
+            xdata = result[main_axis.name]
         Ydatas.insert(0, Y_overall)
         Xdatas.insert(0, xdata)
         new_color_list = new_color_list.copy()
-- 
2.43.0


From 083ed102d8892af4bd55e3db6d86ffb75f10202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:04 +0000
Subject: [PATCH 101/113] fix: convert vector fields whose third component goes
 by the other name

---
 SciDataTool/Methods/VectorField/to_rphiz.py | 4 +++-
 SciDataTool/Methods/VectorField/to_xyz.py   | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/to_rphiz.py b/SciDataTool/Methods/VectorField/to_rphiz.py
index 26258da..82f0a7e 100644
--- a/SciDataTool/Methods/VectorField/to_rphiz.py
+++ b/SciDataTool/Methods/VectorField/to_rphiz.py
@@ -16,7 +16,7 @@ def to_rphiz(self):
     if (
         "radial" in self.components
         or "tangential" in self.components
-        or "axial" in self.components
+        or not ("comp_x" in self.components or "comp_y" in self.components)
     ):
         return self.copy()
 
@@ -52,5 +52,7 @@ def to_rphiz(self):
         if "comp_z" in self.components:
             Comp_z = self.components["comp_z"].copy()
             comp_dict["axial"] = Comp_z
+        elif "axial" in self.components:
+            comp_dict["axial"] = self.components["axial"].copy()
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
diff --git a/SciDataTool/Methods/VectorField/to_xyz.py b/SciDataTool/Methods/VectorField/to_xyz.py
index e024a44..5bcfa52 100644
--- a/SciDataTool/Methods/VectorField/to_xyz.py
+++ b/SciDataTool/Methods/VectorField/to_xyz.py
@@ -13,7 +13,11 @@ def to_xyz(self):
     module = __import__("SciDataTool.Classes.VectorField", fromlist=["VectorField"])
     VectorField = getattr(module, "VectorField")
 
-    if "comp_x" in self.components or "comp_y" in self.components:
+    if (
+        "comp_x" in self.components
+        or "comp_y" in self.components
+        or not ("radial" in self.components or "tangential" in self.components)
+    ):
         return self.copy()
 
     else:
-- 
2.43.0


From 3e0a4cc7c50d3248aff94def947cef86636b710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:04 +0000
Subject: [PATCH 102/113] fix: keep the third coordinate of points converted to
 cartesian

---
 SciDataTool/Functions/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index e18f037..c89500a 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -585,14 +585,14 @@ def rphiz_to_xyz(values):
 
     r = values[:, 0]
     phi = values[:, 1]
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         z = values[:, 2]
 
     affixe = r * exp(1j * phi)
     x = real(affixe)
     y = imag(affixe)
 
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         return column_stack((x, y, z))
     else:
         return column_stack((x, y))
-- 
2.43.0


From dbe8898020d26e6d54b5a6f602ac5d0dc9081f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:14 +0000
Subject: [PATCH 103/113] fix: keep the working directory when a file cannot be
 loaded

---
 SciDataTool/Functions/load.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/load.py b/SciDataTool/Functions/load.py
index 523a12b..987ab47 100644
--- a/SciDataTool/Functions/load.py
+++ b/SciDataTool/Functions/load.py
@@ -48,8 +48,10 @@ def init_data(obj, file_path):
             if folder_path != "":
                 wd = getcwd()
                 chdir(folder_path)
-                new_obj = class_obj(init_dict=obj)
-                chdir(wd)
+                try:
+                    new_obj = class_obj(init_dict=obj)
+                finally:
+                    chdir(wd)
                 return new_obj
             else:
                 return class_obj(init_dict=obj)
-- 
2.43.0


From 705cf4ecf1a1978f72d7c16803d6212ad259903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:29 +0000
Subject: [PATCH 104/113] fix: take the declared weighting of single samples in
 dBA levels

---
 .../Methods/DataND/get_magnitude_along.py      | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 763a58b..40636ec 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -194,22 +194,10 @@ def get_magnitude_along(
             if "A-weight" in self.normalizations:
                 values = to_dB(values, self.unit, ref_value)
                 # Extract requested indices from A-weight
-                axes_list = return_dict["axes_list"]
-                index_list = []
-                for ii, axis in enumerate(axes_list):
-                    if (
-                        axis.indices is not None
-                        and len(axis.indices) > 1
-                        and len(axis.indices) < len(axis.values)
-                    ):
-                        index_list.append(ii)
                 A_weight = self.normalizations["A-weight"].vector
-                for index in index_list:
-                    A_weight = take(
-                        A_weight,
-                        axes_list[index].indices,
-                        axis=index,
-                    )
+                for axis in return_dict["axes_list"]:
+                    if axis.indices is not None and axis.index < A_weight.ndim:
+                        A_weight = take(A_weight, axis.indices, axis=axis.index)
                 # Flatten to apply A-weighting
                 A_weight = A_weight.ravel("C")
                 shape = values.shape
-- 
2.43.0


From 921a6de3a74191e9c27984ac8433a898edadfc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:20 +0000
Subject: [PATCH 105/113] fix: rebuild the angle axis of an odd number of
 wavenumbers

---
 SciDataTool/Functions/fft_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 24ec812..e726350 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -77,10 +77,11 @@ def comp_fft_time(freqs, is_angle, is_real):
         if is_real and not is_angle:
             N_tot = 2 * (len(freqs) - 1)  # Number of samples
             fs = freqs[-1] / (N_tot)
+            tf = 1 / (fs * 2)
         else:
             N_tot = len(freqs)  # Number of samples
-            fs = freqs[-1] / (N_tot - 2)
-        tf = 1 / (fs * 2)
+            # The resolution does not depend on the parity of the number of samples
+            tf = (N_tot - 1) / (freqs[-1] - freqs[0])
         time = linspace(0, tf, N_tot, endpoint=False)
         # fsampt = freqs[-1] * 2.0
         # timestep = 1.0 / fsampt
-- 
2.43.0


From e1230e59635ab72afd036709df428f00c1040b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:31 +0000
Subject: [PATCH 106/113] fix: ranking of an extracted axis refers to the
 extracted values

---
 SciDataTool/Methods/DataND/get_data_along.py | 22 ++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index b1af025..bfd335d 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -101,11 +101,25 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                     for key, norm in self.axes[index].normalizations.items()
                 },
                 symmetries=symmetries,
-            ).to_linspace()
-            if hasattr(self.axes[index], "sort_indices") and hasattr(
-                Axis, "sort_indices"
+            )
+            sort_indices = getattr(self.axes[index], "sort_indices", None)
+            if (
+                sort_indices is None
+                or name != self.axes[index].name
+                or axis_requested.extension == "axis_data"
             ):
-                Axis.sort_indices = self.axes[index].sort_indices
+                Axis = Axis.to_linspace()
+            else:
+                # Keep ranking of the extracted values
+                if axis_requested.indices is not None:
+                    N = self.axes[index].get_length()
+                    indices = [i % N for i in axis_requested.indices]
+                    sort_indices = [
+                        indices.index(i) for i in sort_indices if i in indices
+                    ]
+                elif len(symmetries) == 0:
+                    sort_indices = [i for i in sort_indices if i < len(axis_values)]
+                Axis.sort_indices = list(sort_indices)
             Axes.append(Axis)
 
     # Update unit if dB/dBA conversion
-- 
2.43.0


From a03f2f8ffe67720ac336e003c5c0862990f22b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:21:04 +0000
Subject: [PATCH 107/113] fix: axis names containing the name of an operation
 are not read as this operation

---
 SciDataTool/Functions/parser.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 71f0848..70a2fac 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -42,74 +42,74 @@ def read_input_strings(args, axis_data):
             name = elems[0]
             axis_str = axis_str.replace("->" + unit, "")
         # Detect max
-        if "max" in axis_str:
+        if "=max" in axis_str:
             elems = axis_str.split("=max")
             name = elems[0]
             extension = "max"
         # Detect min
-        elif "min" in axis_str:
+        elif "=min" in axis_str:
             elems = axis_str.split("=min")
             name = elems[0]
             extension = "min"
         # Detect rms sum
-        elif "rss" in axis_str:
+        elif "=rss" in axis_str:
             elems = axis_str.split("=rss")
             name = elems[0]
             extension = "rss"
         # Detect sum
-        elif "sum" in axis_str:
+        elif "=sum" in axis_str:
             elems = axis_str.split("=sum")
             name = elems[0]
             extension = "sum"
         # Detect rms mean
-        elif "rms" in axis_str:
+        elif "=rms" in axis_str:
             elems = axis_str.split("=rms")
             name = elems[0]
             extension = "rms"
         # Detect mean
-        elif "mean" in axis_str:
+        elif "=mean" in axis_str:
             elems = axis_str.split("=mean")
             name = elems[0]
             extension = "mean"
         # Detect integrate
-        elif "integrate_local" in axis_str:
+        elif "=integrate_local" in axis_str:
             elems = axis_str.split("=integrate_local")
             name = elems[0]
             extension = "integrate_local"
-        elif "integrate" in axis_str:
+        elif "=integrate" in axis_str:
             elems = axis_str.split("=integrate")
             name = elems[0]
             extension = "integrate"
         # Detect antiderivate
-        elif "antiderivate" in axis_str:
+        elif "=antiderivate" in axis_str:
             elems = axis_str.split("=antiderivate")
             name = elems[0]
             extension = "antiderivate"
         # Detect derivate
-        elif "derivate" in axis_str:
+        elif "=derivate" in axis_str:
             elems = axis_str.split("=derivate")
             name = elems[0]
             extension = "derivate"
         # Detect periods
-        elif "oneperiod" in axis_str:
+        elif "[oneperiod" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "oneperiod"
-        elif "antiperiod" in axis_str:
+        elif "[antiperiod" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "antiperiod"
-        elif "smallestperiod" in axis_str:
+        elif "[smallestperiod" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "smallestperiod"
         # Detect pattern
-        elif "pattern" in axis_str:
+        elif "pattern]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "pattern"
         # Detect axis_data input
-        elif "axis_data" in axis_str:
+        elif "=axis_data" in axis_str:
             elems = axis_str.split("=axis_data")
             name = elems[0]
             if name in axis_data:
-- 
2.43.0


From 642ab33cb9233e0fb1c1f2f4f8c213bbfeaca654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:24:22 +0000
Subject: [PATCH 108/113] fix: levels summed along an axis whose name holds the
 name of the frequency axis

---
 SciDataTool/Methods/DataND/get_magnitude_along.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 40636ec..fbb8da5 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -56,10 +56,10 @@ def get_magnitude_along(
             freq_name = axis.name
         if freq_name is not None:
             for i, arg in enumerate(args):
-                for name in args_freqs:
-                    if name in arg and ("sum" in arg or "rss" in arg):
-                        new_args[i] = name
-                        index_freq = i
+                name = arg.split("=")[0].split("->")[0]
+                if name in args_freqs and ("=sum" in arg or "=rss" in arg):
+                    new_args[i] = name
+                    index_freq = i
             if index_freq is None:  # No sum on freqs axis -> can extract directly
                 return self.get_magnitude_along(
                     *args,
-- 
2.43.0


From d8cf3dabe9e22038a717a669a49dd066a1ec8d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:41:39 +0000
Subject: [PATCH 109/113] fix: objects with functions can be written, files
 that cannot be read are reported

---
 SciDataTool/Classes/DataDual.py    | 5 +++--
 SciDataTool/Classes/DataND.py      | 3 ++-
 SciDataTool/Classes/Norm_func.py   | 3 ++-
 SciDataTool/Classes/VectorField.py | 3 ++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 15f4084..d59e2cc 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -4,6 +4,7 @@
 """Method code available at https://github.com/Eomys/SciDataTool/tree/master/SciDataTool/Methods//DataDual
 """
 
+from logging import getLogger
 from os import linesep
 from sys import getsizeof
 from ._check import set_array, check_var, raise_
@@ -424,7 +425,7 @@ class DataDual(DataND):
                     try:
                         obj = load_init_dict(obj)[1]
                     except Exception as e:
-                        self.get_logger().error(
+                        getLogger(__name__).error(
                             "Error while loading " + obj + ", setting None instead"
                         )
                         obj = None
@@ -492,7 +493,7 @@ class DataDual(DataND):
                     try:
                         obj = load_init_dict(obj)[1]
                     except Exception as e:
-                        self.get_logger().error(
+                        getLogger(__name__).error(
                             "Error while loading " + obj + ", setting None instead"
                         )
                         obj = None
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index f1a629a..bcf9238 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -4,6 +4,7 @@
 """Method code available at https://github.com/Eomys/SciDataTool/tree/master/SciDataTool/Methods//DataND
 """
 
+from logging import getLogger
 from os import linesep
 from sys import getsizeof
 from ._check import set_array, check_var, raise_
@@ -769,7 +770,7 @@ class DataND(Data):
                     try:
                         obj = load_init_dict(obj)[1]
                     except Exception as e:
-                        self.get_logger().error(
+                        getLogger(__name__).error(
                             "Error while loading " + obj + ", setting None instead"
                         )
                         obj = None
diff --git a/SciDataTool/Classes/Norm_func.py b/SciDataTool/Classes/Norm_func.py
index 78eb118..ac0334b 100644
--- a/SciDataTool/Classes/Norm_func.py
+++ b/SciDataTool/Classes/Norm_func.py
@@ -4,6 +4,7 @@
 """Method code available at https://github.com/Eomys/SciDataTool/tree/master/SciDataTool/Methods//Norm_func
 """
 
+from logging import getLogger
 from os import linesep
 from sys import getsizeof
 from ._check import check_var, raise_
@@ -162,7 +163,7 @@ class Norm_func(Normalization):
         else:
             Norm_func_dict["function"] = None
             if self.function is not None:
-                self.get_logger().warning(
+                getLogger(__name__).warning(
                     "Norm_func.as_dict(): "
                     + "Function self.function is not serializable "
                     + "and will be converted to None."
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index 794ea25..0ef0286 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -4,6 +4,7 @@
 """Method code available at https://github.com/Eomys/SciDataTool/tree/master/SciDataTool/Methods//VectorField
 """
 
+from logging import getLogger
 from os import linesep
 from sys import getsizeof
 from ._check import check_var, raise_
@@ -556,7 +557,7 @@ class VectorField(FrozenClass):
                     try:
                         obj = load_init_dict(obj)[1]
                     except Exception as e:
-                        self.get_logger().error(
+                        getLogger(__name__).error(
                             "Error while loading " + obj + ", setting None instead"
                         )
                         obj = None
-- 
2.43.0


From 013b51368d668da3388f4d550018bf49ec1a37b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:27:46 +0000
Subject: [PATCH 110/113] fix: label normalized figures of fields whose symbol
 has a subscript

---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 2 +-
 SciDataTool/Methods/DataND/plot_3D_Data.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index e09badd..bf81552 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -200,7 +200,7 @@ def plot_2D_Data(
         if is_norm:
             if ylabel is None:
                 ylabel = (
-                    r"$\frac{" + self.symbol + "}{" + self.symbol + "_0}\,$" + unit_str
+                    r"$\frac{" + self.symbol + "}{{" + self.symbol + "}_0}\,$" + unit_str
                 )
         else:
             if self.symbol == "Magnitude":
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index adafe37..c2baffc 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -170,7 +170,7 @@ def plot_3D_Data(
         if zlabel is None:
             if is_norm:
                 zlabel = (
-                    r"$\frac{" + self.symbol + "}{" + self.symbol + "_0}$ " + unit_str
+                    r"$\frac{" + self.symbol + "}{{" + self.symbol + "}_0}$ " + unit_str
                 )
             else:
                 if self.symbol == "Magnitude":
-- 
2.43.0


From c5caee089c16d31d4ee0025a64a70650f46cf8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:00:41 +0000
Subject: [PATCH 111/113] fix: set logarithmic scales of the axes of maps and
 surfaces

---
 SciDataTool/Functions/Plot/plot_3D.py | 4 ++--
 SciDataTool/Functions/Plot/plot_4D.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index 3c583bd..bb3cb9c 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -369,10 +369,10 @@ def plot_3D(
     ax.set_ylabel(ylabel)
 
     if is_logscale_x:
-        ax.xscale("log")
+        ax.set_xscale("log")
 
     if is_logscale_y:
-        ax.yscale("log")
+        ax.set_yscale("log")
 
     if is_disp_title:
         ax.set_title(title)
diff --git a/SciDataTool/Functions/Plot/plot_4D.py b/SciDataTool/Functions/Plot/plot_4D.py
index edec72b..38c7cc9 100644
--- a/SciDataTool/Functions/Plot/plot_4D.py
+++ b/SciDataTool/Functions/Plot/plot_4D.py
@@ -246,10 +246,10 @@ def plot_4D(
     ax.set_ylim([y_min, y_max])
 
     if is_logscale_x:
-        ax.xscale("log")
+        ax.set_xscale("log")
 
     if is_logscale_y:
-        ax.yscale("log")
+        ax.set_yscale("log")
 
     if is_disp_title:
         ax.set_title(title)
-- 
2.43.0


From f4b229f143ada7e5ade755e69550a18a0877a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:00:41 +0000
Subject: [PATCH 112/113] fix: place labels of component axes in switched maps
 and in surfaces

---
 SciDataTool/Functions/Plot/plot_3D.py      | 1 +
 SciDataTool/Methods/DataND/plot_3D_Data.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index bb3cb9c..3f1d412 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -162,6 +162,7 @@ def plot_3D(
         x_max, y_max = y_max, x_max
         xlabel, ylabel = ylabel, xlabel
         xticks, yticks = yticks, xticks
+        xticklabels, yticklabels = yticklabels, xticklabels
         is_logscale_x, is_logscale_y = is_logscale_y, is_logscale_x
 
     # Plot
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index c2baffc..63db5f7 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -734,6 +734,7 @@ def plot_3D_Data(
                 xlabel=xlabel,
                 ylabel=ylabel,
                 zlabel=zlabel,
+                xticks=xticks,
                 yticks=yticks,
                 xticklabels=xticklabels,
                 yticklabels=yticklabels,
-- 
2.43.0


From e33a41c9f826d4b091e81be8be3171228415e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:00:41 +0000
Subject: [PATCH 113/113] fix: draw stems of a single component

---
 SciDataTool/Methods/DataND/plot_3D_Data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index 63db5f7..e29b65e 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -228,16 +228,16 @@ def plot_3D_Data(
     if Zdata.ndim == 2 and axis_x.index > axis_y.index:
         # Axes requested in the opposite order to the dimensions of the field
         Zdata = Zdata.T
-    if Xdata.size == 1:
-        Zdata = Zdata[None, ...]
-    if Ydata.size == 1:
-        Zdata = Zdata[..., None]
     if is_fft and is_stem:
         X_flat = Xdata
         Y_flat = Ydata
         Z_flat = Zdata
 
     else:
+        if Xdata.size == 1:
+            Zdata = Zdata[None, ...]
+        if Ydata.size == 1:
+            Zdata = Zdata[..., None]
         Y_map, X_map = meshgrid(Ydata, Xdata)
         X_flat = X_map.flatten()
         Y_flat = Y_map.flatten()
-- 
2.43.0

