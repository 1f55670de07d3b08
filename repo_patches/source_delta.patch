From a8d479abec2728d3a16ac9435ca7a4f579aaea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 01/73] fix: terminate the f-string that keeps lam_tar_gyre
 (and aesolver) from importing

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index 3551f9f..ec90460 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -86,7 +86,7 @@ class GyreLambdas:
                 sys.exit()
         else:
             logger.error(
-                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way.'
+                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way."
             )
             sys.exit()
 
-- 
2.43.0


From 906686c56835d69adc9c3912816bcdc70ed48165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 02/73] fix: pairing functions accept plain tuples and
 integers, as documented

---
 py-combinations/pairing_functions/cantor_pairing.py    | 4 ++--
 py-combinations/pairing_functions/symmetric_pairing.py | 2 +-
 py-combinations/pairing_functions/xie_pairing.py       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/py-combinations/pairing_functions/cantor_pairing.py b/py-combinations/pairing_functions/cantor_pairing.py
index 11c5d77..1d228cf 100644
--- a/py-combinations/pairing_functions/cantor_pairing.py
+++ b/py-combinations/pairing_functions/cantor_pairing.py
@@ -24,7 +24,7 @@ def cantor_pair(my_pair, lowest_integer=0):
         The paired/mapped integer.
     """
     # adjust the mapping pair: subtract the lowest integer considered
-    mapping_pair = my_pair - lowest_integer
+    mapping_pair = np.array(my_pair) - lowest_integer
     # compute the sum of the mapping integer pair
     int_sum = mapping_pair.sum()
     # compute and return the paired/mapped integer
@@ -54,4 +54,4 @@ def invert_cantor_pair(cantor_integer, lowest_integer=0):
     # - tuple generation
     reconstructed_tuple = (_w - cantor_integer + _t, cantor_integer - _t)
     # - return result
-    return reconstructed_tuple + lowest_integer  # type: ignore
+    return np.array(reconstructed_tuple) + lowest_integer
diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index 5c1f8cd..45d3418 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -54,4 +54,4 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
     # compute the paired integers
     reconstructed_tuple = (my_sym_number - _t, _w + 1)
     # return the previously mapped tuple
-    return reconstructed_tuple + lowest_integer - 1
+    return np.array(reconstructed_tuple) + lowest_integer - 1
diff --git a/py-combinations/pairing_functions/xie_pairing.py b/py-combinations/pairing_functions/xie_pairing.py
index 773e51e..ee9f4e6 100644
--- a/py-combinations/pairing_functions/xie_pairing.py
+++ b/py-combinations/pairing_functions/xie_pairing.py
@@ -83,4 +83,4 @@ def invert_xie_symmetric_pair(xie_number, lowest_integer):
     m = _first_fac + _a * ((_t + 1) * (_t + 1 + _b) - xie_number)
     n = _first_fac + _a * (xie_number - (_t * (_t + _b)))
     # return the reconstructed pair
-    return (m, n) + lowest_integer - 1
+    return np.array((m, n)) + lowest_integer - 1
-- 
2.43.0


From fd7108d0e7635b72a8240511c013ac27441148a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 03/73] fix: inverse of the symmetric pairing function on and
 near the diagonal

---
 py-combinations/pairing_functions/symmetric_pairing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index 45d3418..81d501a 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -49,7 +49,7 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
         The tuple/list that was mapped by the simplistic symmetric pairing function.
     """
     # compute intermediate quantities
-    _w = floor(0.5 * np.sqrt(8.0 * my_sym_number + 1.0) - 0.5)
+    _w = floor(0.5 * np.sqrt(8.0 * my_sym_number - 7.0) - 0.5)
     _t = int(((_w * _w) + _w) / 2)
     # compute the paired integers
     reconstructed_tuple = (my_sym_number - _t, _w + 1)
-- 
2.43.0


From 132d67664b434c9774a1bfe18044788c73b4c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 04/73] fix: generic pre-checks of several triads, or of modes
 numbered other than 1, 2, 3

---
 .../pre_checks/generic/generic_quadratic_checks.py   | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index 813cfb5..e8b504a 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -58,7 +58,7 @@ class PreCheckQuadratic:
         if triads is None:
             triads = [(1, 2, 3)]
         if conjugation is None or isinstance(conjugation[0], bool):
-            conjugation = [(True, False, False)]
+            conjugation = [(True, False, False)] * len(triads)
         # store the boolean that dictates how outputs are generated
         self._all_fulfilled = all_fulfilled
         # store the mode info object
@@ -119,7 +119,7 @@ class PreCheckQuadratic:
             # store the azimuthal order
             self._m_list.append(self._mode_attr_list_extractor('m', _m))
             # store the meridional order
-            self._k_list.append(self._compute_meridional_orders(_i, _m))
+            self._k_list.append(self._compute_meridional_orders(_i))
 
     # attribute list extractor
     def _mode_attr_list_extractor(
@@ -152,7 +152,7 @@ class PreCheckQuadratic:
 
     # - compute the meridional orders
     def _compute_meridional_orders(
-        self, lm_index: int, my_mode_nrs: list[int]
+        self, lm_index: int
     ) -> list[int]:
         """Computes the meridional order based on the stored spherical degrees and azimuthal orders.
 
@@ -160,8 +160,6 @@ class PreCheckQuadratic:
         ----------
         lm_index : int
             The index that covers the different l/m list combinations.
-        my_mode_nrs : list[int]
-            Contains the mode numbers of the specific mode triplet for which the meridional order is computed.
 
         Returns
         -------
@@ -173,8 +171,8 @@ class PreCheckQuadratic:
         _m_list = self._m_list[lm_index]
         # return the meridional order list
         return [
-            self._compute_k_grav_in(_l_list[mnr - 1], _m_list[mnr - 1])
-            for mnr in my_mode_nrs
+            self._compute_k_grav_in(_l, _m)
+            for _l, _m in zip(_l_list, _m_list)
         ]
 
     # utility method used to perform 'm' conjugation
-- 
2.43.0


From d894b2d844d5a72767ab85b306c07322bd3d7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 05/73] fix: co-rotating cyclic frequency of inertial-frame
 modes in angular units

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index 641d8a8..b0dcb56 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -876,7 +876,7 @@ class FrequencyHandler:
                     self._corot_mode_omegas[_i] = _convert_freq_omega.real - (
                         _m * self._rot_freq
                     )
-                    self._corot_mode_freqs[_i] = self._corot_mode_freqs[_i] / (
+                    self._corot_mode_freqs[_i] = self._corot_mode_omegas[_i] / (
                         2.0 * np.pi
                     )
                 else:
-- 
2.43.0


From 08e5c0a678dc0978eb2a8f39a3223b7e8aee4aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 06/73] fix: dimensionless nonadiabatic frequencies beside
 dimensioned adiabatic ones

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index b0dcb56..a1efd66 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -1039,7 +1039,7 @@ class FrequencyHandler:
             # obtain the additional conversion functions for nonadiabatic input
             enummeta_nad = EnumGYREFreqConv.factor_from_dict
             return [
-                enummeta_nad(_m_dict_n, self._requested_units)
+                enummeta_nad(_m_dict_n, self._requested_units, no_exit=True)
                 for _m_dict_n in gyre_nad_dicts
             ]
 
-- 
2.43.0


From b734bb7623731385d8713afa524c0f2084c45892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 07/73] fix: dynamical time scale is divided by the unit factor
 of the requested frequencies

---
 .../enumeration_freq_converter_normalization.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
index a438b76..317ed03 100644
--- a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
+++ b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
@@ -383,7 +383,7 @@ class EnumerationGYREFreqConverter(Enum):
         # compose the dimensioning factor conversion function
         if is_angular:
             # the conversion factor needs to be in the correct cyclic frequency unit: therefore one needs to divide by the nr. of radians included in the angular frequency conversion factor
-            return lambda dim_fac: _req_fac(dim_fac) / (2.0 * np.pi)
+            return lambda dim_fac: dim_fac * (2.0 * np.pi) / _req_fac(1.0)
         else:
             # no conversion needs to be done with respect to angularity of the frequency (conversion only needs to take care of difference between Hz and cpd)
-            return _req_fac
+            return lambda dim_fac: dim_fac / _req_fac(1.0)
-- 
2.43.0


From 444d0afcf40edadbf825d1b3304df6f111576025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 08/73] fix: unit factor from rad/s is defined for stars that
 do not rotate

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index a1efd66..e002fb9 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -240,7 +240,13 @@ class FrequencyHandler:
                 requested_frequency_unit=self._requested_units
             )
         # return the angular version of the conversion factor
-        conv_factor = self._rot_freq / self._rps_rot_freq
+        # NOTE: it does not depend on the rotation rate, so that it is also defined for stars that do not rotate
+        if self._rps_rot_freq:
+            conv_factor = self._rot_freq / self._rps_rot_freq
+        else:
+            conv_factor = EnumGYREFreqConv.factor_from_str(
+                my_units=b'RAD_PER_SEC', my_requested_units=self._requested_units
+            )(1.0)
         if my_angular:
             return conv_factor
         else:
-- 
2.43.0


From 16058c895bb4312403efa63f18261ee2f71557ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 09/73] fix: threads of the parallel trapezoid sum do not share
 their increments

---
 cpp-numintegrator/num_integrator/num_integration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp-numintegrator/num_integrator/num_integration.cpp b/cpp-numintegrator/num_integrator/num_integration.cpp
index ca1f3e4..603e14e 100644
--- a/cpp-numintegrator/num_integrator/num_integration.cpp
+++ b/cpp-numintegrator/num_integrator/num_integration.cpp
@@ -107,6 +107,7 @@ double NumericalDoubleInputIntegrator::trapz_parallel() {
     double local_integrand_sum, local_increment, integration_result = 0.0;
 // update the integration result using the non-equal spaced grid
 #pragma omp parallel for num_threads(numthreads) shared(my_var, my_integrand)  \
+    private(local_integrand_sum, local_increment)                              \
     reduction(+ : integration_result)
     for (int i = 1; i < this->arr_size; i++) {
       local_increment = my_var[i] - my_var[i - 1];
-- 
2.43.0


From ae8f296d742540fb527924be99e4fd42a8d7b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 10/73] fix: integrals over fewer than two samples do not read
 outside the arrays

---
 cpp-numintegrator/num_integrator/num_integration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp-numintegrator/num_integrator/num_integration.cpp b/cpp-numintegrator/num_integrator/num_integration.cpp
index 603e14e..c1523b7 100644
--- a/cpp-numintegrator/num_integrator/num_integration.cpp
+++ b/cpp-numintegrator/num_integrator/num_integration.cpp
@@ -194,6 +194,10 @@ double NumericalDoubleInputIntegrator::simpson_parallel() {
  * @brief Perform integration based on selection string.
  */
 double NumericalDoubleInputIntegrator::integrate() {
+  // fewer than two samples do not span an interval
+  if (this->arr_size < 2) {
+    return 0.0;
+  }
   // switch statement between the different integrations
   switch (this->integration_switch) {
   case IntegrationOptions::trapz: {
-- 
2.43.0


From 22e79a1180955484a0591d100a10762eb058ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 11/73] fix: limb-darkening functions of strided arrays are
 refused instead of mixed up

---
 cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
index 9218998..9a6f931 100644
--- a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
+++ b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
@@ -11,7 +11,7 @@ import numpy as np
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef _comp(
-    int asize, double[:] kap, double[:] res,
+    int asize, double[::1] kap, double[::1] res,
     cpp_string myselvar, int num_threads, cpp_bool paral
     ):
     # create pointer to LimbDarkeningFunctions object
@@ -25,7 +25,7 @@ cdef _comp(
 
 
 def compute(
-    double[:] kap, double[:] res,
+    double[::1] kap, double[::1] res,
     str myselvar, int num_threads, cpp_bool paral
     ):
     # compute the array size
-- 
2.43.0


From a04717788ba5234632bf3a6792c0d35b0f0f6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 12/73] fix: saved Wu statistic is the Wu difference, not the
 average radial order

---
 aesolver/aesolver/data_handling/unpacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/unpacker.py b/aesolver/aesolver/data_handling/unpacker.py
index 75913de..0e808cc 100644
--- a/aesolver/aesolver/data_handling/unpacker.py
+++ b/aesolver/aesolver/data_handling/unpacker.py
@@ -334,7 +334,7 @@ class UnPacker:
         self._wu_rule = np.empty((self._nr_combos,), dtype=np.int64)
         # - unpack the data and store it
         for _i, _couple_stat in enumerate(self._coupling_stats):
-            self._wu_rule[_i] = _couple_stat[0]
+            self._wu_rule[_i] = _couple_stat[1]
 
     def _unpack_mode_information(self) -> None:
         """Method that unpacks the (GYRE) mode information: the quantum numbers."""
-- 
2.43.0


From bf9b8c941ceae740f945b8b05a3503cc38e0d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 13/73] fix: overwritten datasets take the shape of the latest
 data

---
 .../data_specific/hdf5_specific/overwrite_dataset.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
index 0be167d..0782d0c 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
@@ -34,10 +34,11 @@ def overwrite_dataset(
     try:
         # obtain the previous data
         _previous_data = h5file_stream[dataset_path]
-        # overwrite for empty data or when data types are the same
+        # overwrite in place when data types and shapes are the same
         if (is_ds := isinstance(_previous_data, h5.Dataset)) and (
-            isinstance(overwrite_value, h5.Empty)
-            or (_previous_data.dtype == overwrite_value.dtype)
+            _previous_data.dtype == overwrite_value.dtype
+            and _previous_data.shape == overwrite_value.shape
+            and overwrite_value.shape is not None
         ):
             # overwrite it
             _previous_data[...] = overwrite_value
-- 
2.43.0


From 83b08b44460737b9e1a32c105727026de89d0507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 14/73] fix: inlist lists, tuples and quoted text keep the
 values written in them

A list or tuple holding True, False or None was read as that single value, a
tuple of strings as one string, and text within quotes lost quotes of its own.
---
 util-tools/inlist_handler/inlist_handler.py | 25 ++++++++++++---------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/util-tools/inlist_handler/inlist_handler.py b/util-tools/inlist_handler/inlist_handler.py
index acd0be6..e569d05 100644
--- a/util-tools/inlist_handler/inlist_handler.py
+++ b/util-tools/inlist_handler/inlist_handler.py
@@ -102,16 +102,27 @@ class InlistHandler:
         """
         # check for common symbols that indicate the presence of string input
         if cls.__dict__['string_check'].__get__(cls)(value_string):
-            if cls.__dict__['list_check'].__get__(cls)(value_string):
-                logger.debug(f'{value_string} is considered a list of strings.')
+            if value_string[0] in '[(':
+                logger.debug(
+                    f'{value_string} is considered a list/tuple of strings.'
+                )
                 typed_value = ast.literal_eval(value_string)
             else:
-                _de_quoted_string = value_string.strip('"').strip("'")
+                # remove (only) the enclosing quotes
+                _de_quoted_string = value_string[1:-1]
                 logger.debug(
                     f'{value_string} is considered a string, so is replaced '
                     f'with {_de_quoted_string}.'
                 )
                 typed_value = str(_de_quoted_string)
+        # check for a list input
+        elif cls.__dict__['list_check'].__get__(cls)(value_string):
+            logger.debug(f'{value_string} is considered a list.')
+            typed_value = ast.literal_eval(value_string)
+        # check for a tuple input
+        elif cls.__dict__['tuple_check'].__get__(cls)(value_string):
+            logger.debug(f'{value_string} is considered a tuple.')
+            typed_value = ast.literal_eval(value_string)
         # check for input that is reminiscent of a boolean value
         elif cls.__dict__['bool_check'].__get__(cls)(value_string):
             logger.debug(f'{value_string} is considered a boolean.')
@@ -123,14 +134,6 @@ class InlistHandler:
         elif cls.__dict__['none_check'].__get__(cls)(value_string):
             logger.debug(f'{value_string} is considered a boolean.')
             typed_value = None
-        # check for a list input
-        elif cls.__dict__['list_check'].__get__(cls)(value_string):
-            logger.debug(f'{value_string} is considered a list.')
-            typed_value = ast.literal_eval(value_string)
-        # check for a tuple input
-        elif cls.__dict__['tuple_check'].__get__(cls)(value_string):
-            logger.debug(f'{value_string} is considered a tuple.')
-            typed_value = ast.literal_eval(value_string)
         # check for a decimal point in the input
         elif cls.__dict__['float_check'].__get__(cls)(value_string) or (
             cls.compiled_float_regex.match(value_string)
-- 
2.43.0


From 362c14c64b472e6dc750f278b279716e3e7401cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 15/73] fix: inlist numbers with a sign and an exponent are
 read

---
 util-tools/inlist_handler/inlist_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util-tools/inlist_handler/inlist_handler.py b/util-tools/inlist_handler/inlist_handler.py
index e569d05..9aa0484 100644
--- a/util-tools/inlist_handler/inlist_handler.py
+++ b/util-tools/inlist_handler/inlist_handler.py
@@ -84,7 +84,7 @@ class InlistHandler:
     # define and compile the regular expression used to select the defaults inlist
     compiled_regex_defaults = re.compile(r'(.*)\/.*\/(.*)\..*')
     # define and compile the regular expression used to parse floats
-    compiled_float_regex = re.compile(r'\d+[eE]-*\d+')
+    compiled_float_regex = re.compile(r'[+-]?\d+[eE][+-]?\d+')
 
     @classmethod
     def _typer(cls, value_string):
@@ -177,6 +177,7 @@ class InlistHandler:
                 # add the minus sign to the word characters,
                 # in order to obtain negative values in full.
                 _lex.wordchars += '-'
+                _lex.wordchars += '+'
                 # add the square brackets and the comma to the word characters,
                 # in order to obtain list values in full.
                 _lex.wordchars += '['
-- 
2.43.0


From 64d148e2374c7133d132385d02b774e4cf1e1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 16/73] fix: the analysis and plot runs find their inlist in a
 checkout named AESolver, as the solve run does

---
 aesolver/aerunners/analyze_quadratic.py | 2 +-
 aesolver/aerunners/plot_quadratic.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aerunners/analyze_quadratic.py b/aesolver/aerunners/analyze_quadratic.py
index 52409c5..87b47f5 100644
--- a/aesolver/aerunners/analyze_quadratic.py
+++ b/aesolver/aerunners/analyze_quadratic.py
@@ -40,7 +40,7 @@ class QuadraticAnalysisParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
diff --git a/aesolver/aerunners/plot_quadratic.py b/aesolver/aerunners/plot_quadratic.py
index 64cd2ee..d16028f 100644
--- a/aesolver/aerunners/plot_quadratic.py
+++ b/aesolver/aerunners/plot_quadratic.py
@@ -46,7 +46,7 @@ class QuadraticPlotParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
-- 
2.43.0


From b26f48d18ec54264026aa3d9605f7747a72b1555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 17/73] fix: parser given an inlist path whose name holds
 several dots reads that file

---
 util-tools/generic_parser/generic_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index 9b42a62..4b85011 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -186,7 +186,7 @@ class GenericParser:
             _inlist_suffix = full_inlist_path.name.split('.')[-1]  # type: ignore
             # - get file name
             try:
-                _inlist_name = full_inlist_path.name.split('.')[0]  # type: ignore
+                _inlist_name = full_inlist_path.name.rsplit('.', 1)[0]  # type: ignore
             except AttributeError:
                 my_exceptions.append(
                     TypeError(f'The inlist name {_common_error}')
-- 
2.43.0


From e40557175af531a596f6ff83394e3ba82747167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 18/73] fix: the solve run reads --save_file_name from the
 command line

The method that declares the argument overloaded no method of GenericParser,
so that asking for the save name raised AttributeError.
---
 aesolver/aerunners/solve_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aerunners/solve_quadratic.py b/aesolver/aerunners/solve_quadratic.py
index 5c5ab3b..6f221e5 100644
--- a/aesolver/aerunners/solve_quadratic.py
+++ b/aesolver/aerunners/solve_quadratic.py
@@ -63,7 +63,7 @@ class QuadraticSolveParser(GenericParser):
         )
 
     # overload the read_specific_arguments method
-    def _set_up_specific_argparser(self) -> None:
+    def _set_up_specific_argparser_groups_arguments(self) -> None:
         """Overloaded method used to set up a limited amount of parser groups and arguments.
         The majority of all solve run configuration items are passed through an inlist.
         """
-- 
2.43.0


From d26306d1c7fec32dc87b3a1f6dee6118686ccfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 19/73] fix: names of GYRE TAR files of negative orders carry
 one minus sign

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index ec90460..9d15d6b 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -106,7 +106,7 @@ class GyreLambdas:
         str
             The string representing the sign of the input number.
         """
-        return f'+{number}' if (number >= 0) else f'-{number}'
+        return f'+{number}' if (number >= 0) else f'{number}'
 
     @staticmethod
     def get_k(degree, azimuthal):
-- 
2.43.0


From dbb2fbe6092b33952f262cc9a2c908b88347727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 20/73] fix: results files carry their mode numbers for every
 save name

Save names with a hyphen or a dot got no mode numbers, or got them in the middle
of the name or in a directory, so that runs of other modes shared one file.
---
 .../aesolver/data_handling/data_specific/hdf5_saver.py   | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
index 9ed1193..2e54cb4 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
@@ -4,7 +4,7 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import statements
 import logging
-import re
+import os
 import h5py as h5
 import numpy as np
 
@@ -81,10 +81,9 @@ class HDF5Saver:
         """Adjusts the file path to a name that incorporates quantum number information."""
         # construct the quantum number based string
         _qnr_string = f"_k_{'_'.join(self._unpacked_data._mode_k.astype(str))}_m_{'_'.join(self._unpacked_data._mode_m.astype(str))}"
-        # substitute this string into the file path name
-        self._file_path = re.sub(
-            r'(.*\/\w+)(\.\w+)', rf'\1{_qnr_string}\2', self._file_path
-        )
+        # insert this string between the file path name and its suffix
+        _root, _suffix = os.path.splitext(self._file_path)
+        self._file_path = f'{_root}{_qnr_string}{_suffix}'
 
     def _create_base_attribute(
         self,
-- 
2.43.0


From 5a4207a2d187a8b4625cc1648041368855f16d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 21/73] fix: words in mode file names are not mistaken for mode
 numbers

---
 .../aesolver/model_handling/subselection_classes.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index 7ca2077..ae6134c 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -228,9 +228,9 @@ class GYREDetailSubSelector(SubSelectorFiles):
                 'mode': lambda x: 'g_mode' if x else 'p_mode',  # type: ignore
             },
             pattern_dictionary={
-                'l': re.compile(r'.*l(\d+).*'),
-                'm': re.compile(r'.*m([\+|-])(\d+).*'),
-                'n': re.compile(r'.*n\+(\d+).*'),
+                'l': re.compile(r'.*(?<![a-zA-Z])l(\d+).*'),
+                'm': re.compile(r'.*(?<![a-zA-Z])m([\+|-])(\d+).*'),
+                'n': re.compile(r'.*(?<![a-zA-Z])n\+(\d+).*'),
                 'mode': lambda x: re.compile(r'.*(g_mode).*')
                 if x
                 else re.compile(r'.*(p_mode).*'),  # type: ignore
@@ -471,9 +471,9 @@ class PolytropeOscillationModelSubSelector(SubSelectorFiles):
                 'mode': lambda x: 'g_mode' if x else 'p_mode',  # type: ignore
             },
             pattern_dictionary={
-                'l': re.compile(r'.*l(\d+).*'),
-                'm': re.compile(r'.*m([\+|-])(\d+).*'),
-                'n': re.compile(r'.*n\+(\d+).*'),
+                'l': re.compile(r'.*(?<![a-zA-Z])l(\d+).*'),
+                'm': re.compile(r'.*(?<![a-zA-Z])m([\+|-])(\d+).*'),
+                'n': re.compile(r'.*(?<![a-zA-Z])n\+(\d+).*'),
                 'mode': lambda x: re.compile(r'.*(g_mode).*')
                 if x
                 else re.compile(r'.*(p_mode).*'),  # type: ignore
-- 
2.43.0


From e6b66771f7497d5db36441710512f82dab14d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 22/73] fix: structure files are told apart by their whole
 suffix, and GYRE files also by their first letters

---
 aesolver/aesolver/model_handling/subselection_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index ae6134c..39c7039 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -187,8 +187,8 @@ class MESAProfileSubSelector(SubSelectorFiles):
                 'not_gyre': ('gyre', False),
             },
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})'),
-                'not_gyre': re.compile(r'.+(gyre|GYRE).*'),
+                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})$'),
+                'not_gyre': re.compile(r'.*(gyre|GYRE).*'),
             },
         )
 
@@ -439,7 +439,7 @@ class PolytropeModelSubSelector(SubSelectorFiles):
         super().__init__(
             search_elements={'file_suffix': (polytrope_model_suffix, True)},
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})')
+                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})$')
             },
         )
 
-- 
2.43.0


From 3bd0f5db7c529e2ac3ca211df4c2125daeea68ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 23/73] fix: structure files can be selected with a single
 substring, as documented

---
 aesolver/aesolver/model_handling/subselection_classes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index 39c7039..1d2609e 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -99,6 +99,11 @@ class SubSelectorFiles:
             # no breaks: select this file whose name meets the conditions
             return True
 
+    @_verify_conditions.register
+    def _(self, additional_substrings: str, name: str) -> bool:
+        # handle the single additional substring as a list
+        return self._verify_conditions([additional_substrings], name)
+
     @_verify_conditions.register
     def _(self, additional_substrings: list, name: str) -> bool:
         # check the additional substrings
-- 
2.43.0


From 8a6f57815d13662d360cf2ff879a8c93b7628169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 24/73] fix: explicit model directories are used as given
 without a base directory

---
 aesolver/aesolver/model_handling/load_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/load_models.py b/aesolver/aesolver/model_handling/load_models.py
index 505fd6e..bb7f7fc 100644
--- a/aesolver/aesolver/model_handling/load_models.py
+++ b/aesolver/aesolver/model_handling/load_models.py
@@ -304,7 +304,7 @@ class ModelLoader:
         # choose the correct return option
         if subdir is None:
             return subdir
-        elif (self._base_dir is not None) and (not infer_subdir):
+        elif not infer_subdir:
             return subdir
         else:
             return f'{self._base_dir}{subdir}'
-- 
2.43.0


From e37c742febd3c89894566a12d48680e9c80b5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 25/73] fix: derivatives with internal interpolation are given
 at the input points

---
 num-tools/num_deriv/num_deriv.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/num-tools/num_deriv/num_deriv.py b/num-tools/num_deriv/num_deriv.py
index 3705dd7..c189c38 100644
--- a/num-tools/num_deriv/num_deriv.py
+++ b/num-tools/num_deriv/num_deriv.py
@@ -6,7 +6,6 @@ import logging
 import sys
 import numpy as np
 from typing import Callable
-from scipy.interpolate import interp1d
 
 # import local custom modules, if Numba is installed
 try:
@@ -269,14 +268,14 @@ class NumericalDifferentiator:
             Information on the numerical derivative models.
         """
         if self._perform_interpolation:
-            # get the linear 1D interpolation
-            _interpolator = interp1d(x, y)
-            _x = np.linspace(
-                x.min(),
-                x.max(),
-                num=((x.shape[0]) * self._interpolation_factor) - 1,
+            # linearly interpolate, splitting each interval of the input grid
+            _grid_idx = np.arange(x.shape[0])
+            _fine_idx = (
+                np.arange((x.shape[0] - 1) * self._interpolation_factor + 1)
+                / self._interpolation_factor
             )
-            _y = _interpolator(_x)
+            _x = np.interp(_fine_idx, _grid_idx, x)
+            _y = np.interp(_fine_idx, _grid_idx, y)
         else:
             _x = x
             _y = y
@@ -290,15 +289,15 @@ class NumericalDifferentiator:
         )
         # check if sub-sampling needs to be done after interpolation
         if self._perform_interpolation:
-            # perform the mapping from one to the other
-            _map_idx = np.in1d(_x, x).nonzero()[0]
             der_sub_sample = []
             # perform sub-sampling
             for _my_der in derivatives[0]:
                 if _my_der is None:
                     der_sub_sample.append(None)
                 else:
-                    der_sub_sample.append(_my_der[_map_idx])
+                    der_sub_sample.append(
+                        _my_der[:: self._interpolation_factor]
+                    )
             return (der_sub_sample, derivatives[1])
         else:
             return derivatives
-- 
2.43.0


From daa0eb7553a33344fc4e27c4df9fe00f65afd18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 26/73] fix: Fornberg derivatives of too few points are refused
 instead of read from outside the arrays

---
 num-tools/num_deriv/num_deriv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/num-tools/num_deriv/num_deriv.py b/num-tools/num_deriv/num_deriv.py
index c189c38..a49cc29 100644
--- a/num-tools/num_deriv/num_deriv.py
+++ b/num-tools/num_deriv/num_deriv.py
@@ -137,6 +137,12 @@ class NumericalDifferentiator:
             sys.exit()
         else:
             # - Cococubed implementation, see: https://cococubed.com/code_pages/fdcoef.shtml
+            # the interpolation polynomials need enough data points
+            if x.shape[0] <= interpolation_order:
+                logger.error(
+                    f'The interpolation accuracy order {interpolation_order} needs at least {interpolation_order + 1} data points, but only {x.shape[0]} are available! Now exiting.'
+                )
+                sys.exit()
             results = []
             for _ord_der in range(self._order_derivative + 1):
                 # append the zero-th derivative
-- 
2.43.0


From 642d5180f80b560e5285d1c8b2453c2f237ee2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 27/73] fix: Fornberg weights of the highest accuracy order fit
 their work arrays

---
 fornberg-num-deriv/fornberg_num_deriv/fornberg.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90 b/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
index 6eff78a..f76b5a5 100644
--- a/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
+++ b/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
@@ -1,7 +1,7 @@
 module fornberg_deriv
     implicit none
     ! define parameters used in the subroutines
-    integer, parameter :: mmax=8, nmax=20, iaccuracy_max=20
+    integer, parameter :: mmax=8, nmax=21, iaccuracy_max=20
     
 contains
 
@@ -51,7 +51,7 @@ contains
         real(8), intent(in), dimension(ngrid) :: grid, u
         real(8), intent(out), dimension(ngrid) :: du
         integer :: m, n, i, imid, jend
-        real(8), dimension(iaccuracy_max) :: coef
+        real(8), dimension(iaccuracy_max+1) :: coef
         ! Check if requested accuracy is reasonable
         if (iaccuracy .gt. iaccuracy_max) stop 'requested accuracy order too large in routine'
         ! Declare aliases
-- 
2.43.0


From 54dfcd161eb2816b29f813e3de6752ea550aa1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 28/73] fix: angular integrals use the spacing of the Hough
 function grid

---
 .../rotating_tar_angular/hough_integration.py             | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
index 81ce013..dfc2ed0 100644
--- a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
+++ b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
@@ -175,6 +175,10 @@ class HoughIntegration(Enum):
         _integrand = np.prod(_mapped_array, axis=0)
         # retrieve the mu-array
         _mu_arr = getattr(my_obj, '_mu_values')
+        # check if the mu-array is equally spaced
+        _equally_spaced = np.allclose(
+            np.diff(_mu_arr), _mu_arr[1] - _mu_arr[0], rtol=1e-6, atol=0.0
+        )
         # check if the integrand needs a multiplication with mu = cos(theta)
         if mul_with_mu:
             _integrand *= _mu_arr
@@ -212,7 +216,7 @@ class HoughIntegration(Enum):
                 # perform usual integration method
                 regular_result = cni.integrate(
                     num_integ_method,
-                    True,
+                    _equally_spaced,
                     _new_integrand,
                     _mu_arr,
                     nr_omp_threads,
@@ -252,7 +256,7 @@ class HoughIntegration(Enum):
                 # compute integral in mu-space
                 return cni.integrate(
                     num_integ_method,
-                    True,
+                    _equally_spaced,
                     _integrand,
                     _mu_arr,
                     nr_omp_threads,
-- 
2.43.0


From 84791a91b16f34e9c6c32145aafaefe7a8d53e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 29/73] fix: Lee (2012) normalization of Hough functions uses
 the spacing of their grid

---
 hough-func-tools/hough_function/hough_normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hough-func-tools/hough_function/hough_normalizer.py b/hough-func-tools/hough_function/hough_normalizer.py
index e83980c..46a7130 100644
--- a/hough-func-tools/hough_function/hough_normalizer.py
+++ b/hough-func-tools/hough_function/hough_normalizer.py
@@ -137,7 +137,7 @@ class HoughNormalizer(Enum):
         _integrand = hr**2.0
         # compute the normalization integral numerically
         _norm_integral = cni.integrate(
-            'trapz', True, _integrand, mu, nr_omp_threads, use_parallel
+            'trapz', False, _integrand, mu, nr_omp_threads, use_parallel
         )
         # use that value to compute and return the normalizing (multiplicative) factor
         return 1.0 / np.sqrt(2.0 * np.pi * _norm_integral)
-- 
2.43.0


From e5d8b7cc909ca2b852f9c28014607229c5ce1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 30/73] fix: negative angular integrals are protected against
 blow-up like positive ones

---
 .../rotating_tar_angular/hough_integration.py                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
index dfc2ed0..c53a6ff 100644
--- a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
+++ b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
@@ -223,7 +223,7 @@ class HoughIntegration(Enum):
                     use_parallel,
                 )
                 # check for blow-ups
-                if regular_result > cheby_blow_up_factor:
+                if abs(regular_result) > cheby_blow_up_factor:
                     # BLOW-UP: perform CG quadrature
                     if not div_by_sin:
                         my_interpolator = interp1d(
-- 
2.43.0


From 111f316d5df0bbd5157d54e9dece8dd92b2a0d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 31/73] fix: lists of conjugation flags are accepted by the
 angular integrals, as documented

---
 .../rotating_tar_angular/hough_integration.py                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
index c53a6ff..eaf691c 100644
--- a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
+++ b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
@@ -286,7 +286,7 @@ class HoughIntegration(Enum):
         if conj is None:
             # - no conjugation
             return m_list
-        elif isinstance(conj, tuple):
+        elif isinstance(conj, (tuple, list)):
             # check length of tuple
             if len(conj) != 3:
                 logger.error(
-- 
2.43.0


From 88b26b9efb445ba084c8e0e54c23b2eef996b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:33 +0000
Subject: [PATCH 32/73] fix: second derivatives of Hough functions have the
 equatorial parity of the functions

---
 hough-func-tools/hough_function/hough_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 113c5d7..521825b 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -332,7 +332,7 @@ class HoughFunction:
             Parity-adjusted (second derivative of radial Hough function) part of the theta-space ranging from mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
@@ -345,7 +345,7 @@ class HoughFunction:
             Parity-adjusted second theta derivative of the radial Hough function for mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
-- 
2.43.0


From 4cc60012ac07cdee52fe75f0dc8afc7ac54d2140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 33/73] fix: derivatives of azimuthal Hough functions have the
 sign of the functions

---
 hough-func-tools/hough_function/hough_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 521825b..f5d22a3 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -869,6 +869,9 @@ class HoughFunction:
                 )
                 / self._s**3.0
             )
+            # multiplicative factor of the azimuthal Hough function if Lee & Saio def. is to be followed.
+            if self._my_instructions['adjust_phi_sign']:
+                self._hpp *= -1.0
             # adjust form if necessary (GYRE definition)
             if self._my_instructions['sin_factor']:
                 self._hpp = (self._s * self._hpp) - (
-- 
2.43.0


From 9d9d24f9d4d87b5c11dc0328bdefb334e7f86c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 34/73] fix: normalisation check understands plain Python
 numbers

---
 gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py b/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
index d52b4b0..6107c45 100644
--- a/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
+++ b/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
@@ -343,7 +343,7 @@ class GYREEigenFunctionNormalizer:
         # perform the check of the normalization factor for a specific mode, and store the result of that check in the appropriate place. NOTE: False outcome of the check results in True: result for the check array!
         self._check_array[
             mode_nr - 1
-        ] = ~EnumNormConvFactors.check_value_from_object(
+        ] = not EnumNormConvFactors.check_value_from_object(
             my_obj=self._data_obj,
             normalization_action_string=self._norm_conv,
             my_mode_nr=mode_nr,
-- 
2.43.0


From 17e90640fd777ee4e34af1a9dace260646fa416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 35/73] fix: iterative normalisation with an iteration limit of
 zero reports instead of failing

---
 gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py b/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
index 6107c45..80c6b25 100644
--- a/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
+++ b/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
@@ -210,7 +210,7 @@ class GYREEigenFunctionNormalizer:
         else:
             # compute the percentage deviation from full normalization if refinement fails, and issue a warning.
             self._log_debug_if_not_fully_successful(
-                refine_mode_nrs=_refine_mode_nrs,  # type: ignore
+                refine_mode_nrs=self._check_array.nonzero()[0] + 1,
                 optional_additional_message=f'(even after {self._iteration_nr} iterations!).)',
             )
 
-- 
2.43.0


From 26467109f8b94c525ecdc252d190926f909fa6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 36/73] fix: azimuthal derivatives of Hough functions use the
 azimuthal order of their definition

---
 .../hough_function/hough_function.py          | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index f5d22a3..b39deb8 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -587,6 +587,17 @@ class HoughFunction:
             value1=self.neg_mu_hpp_theta, value2=self._hpp_theta
         )
 
+    @property
+    def _m_of_definition(self) -> float:
+        """Return the azimuthal order in the convention of the definition of the Hough functions: its sign is that of the azimuthal Hough function.
+
+        Returns
+        -------
+        float
+            Azimuthal order in the convention of the definition of the Hough functions.
+        """
+        return -self._m if self._my_instructions["adjust_phi_sign"] else self._m
+
     @property
     def theta_phi_hough_tilde(self):
         """Return the values of the theta_phi term defined in Eqn. B16 of Lee(2012).
@@ -602,10 +613,12 @@ class HoughFunction:
             and self.neg_mu_ht is not None
             and self.neg_mu_hp is not None
         ):
+            # azimuthal order in the convention of the definition
+            _m = self._m_of_definition
             # get positive mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            pos_mu_part = ((self._m * self._ht) - (self._mu * self._hp))[::-1]
+            pos_mu_part = ((_m * self._ht) - (self._mu * self._hp))[::-1]
             # get negative mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            neg_mu_part = (self._m * self.neg_mu_ht) - (
+            neg_mu_part = (_m * self.neg_mu_ht) - (
                 self.neg_mu * self.neg_mu_hp
             )
             return np.concatenate([neg_mu_part, pos_mu_part])
@@ -627,13 +640,15 @@ class HoughFunction:
             and self.neg_mu_ht is not None
             and self.neg_mu_hp is not None
         ):
+            # azimuthal order in the convention of the definition
+            _m = self._m_of_definition
             # get positive mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
             pos_mu_part = (
-                ((self._mu * self._ht) - (self._m * self._hp)) / self._s
+                ((self._mu * self._ht) - (_m * self._hp)) / self._s
             )[::-1]
             # get negative mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
             neg_mu_part = (
-                (self.neg_mu * self.neg_mu_ht) - (self._m * self.neg_mu_hp)
+                (self.neg_mu * self.neg_mu_ht) - (_m * self.neg_mu_hp)
             ) / self._s
             # return complete part
             return np.concatenate([neg_mu_part, pos_mu_part])
-- 
2.43.0


From 16625a533ea959b3298fd4838e64f2e607208e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 37/73] fix: mode energies count the azimuthal integration once

---
 .../quadratic_coupling_coefficient_rotating.py           | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 775fa1a..04180c5 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1233,8 +1233,8 @@ class QuadraticCouplingCoefficientRotating(CCR):
             )
             # compute the result of the specific term in the 'traditional norm' and add it to the total
             trad_norm += _trad_norm_angular * _trad_norm_radial
-        # multiply with pre-factor (due to Phi coordinate integration) to get the 'traditional norm' and store in the object
-        setattr(self, f'_classic_norm_mode_{mode_nr}', trad_norm * 2.0 * np.pi)
+        # store the 'traditional norm' in the object (the angular integrals contain the integration over the Phi coordinate)
+        setattr(self, f'_classic_norm_mode_{mode_nr}', trad_norm)
 
     # generic method that computes a radial integral
     def _compute_radial_integral(
@@ -1379,12 +1379,11 @@ class QuadraticCouplingCoefficientRotating(CCR):
         _coriolis_norm_radial = self._radint(
             _coriolis_norm_radial_integrand, self._x
         )
-        # compute the total Coriolis term contribution
+        # compute the total Coriolis term contribution (the angular integral contains the integration over the Phi coordinate)
         _coriolis_norm = (
             _coriolis_norm_radial
             * _coriolis_norm_angular
-            * 8.0
-            * np.pi
+            * 4.0
             * self._freq_handler.surf_rot_angular_freq
         )
         # get the corotating-frame frequency for the modes
-- 
2.43.0


From 8b60b1059e97cc375e30df9cccd09667d99666bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 38/73] fix: Coriolis part of the mode energies has the sign of
 the azimuthal Hough function

---
 .../quadratic_coupling_coefficient_rotating.py                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 04180c5..352a8df 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1380,10 +1380,11 @@ class QuadraticCouplingCoefficientRotating(CCR):
             _coriolis_norm_radial_integrand, self._x
         )
         # compute the total Coriolis term contribution (the angular integral contains the integration over the Phi coordinate)
+        # NOTE the negative sign, because the azimuthal Hough function has the sign of the Lee & Saio (1997) definition
         _coriolis_norm = (
             _coriolis_norm_radial
             * _coriolis_norm_angular
-            * 4.0
+            * -4.0
             * self._freq_handler.surf_rot_angular_freq
         )
         # get the corotating-frame frequency for the modes
-- 
2.43.0


From ae71a99ed36bff932e99a0bae11e5ed73956f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 39/73] fix: conj_cc=False requests no complex conjugation

---
 .../quadratic_coupling_coefficient_rotating.py                | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 352a8df..5b02c90 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -309,7 +309,9 @@ class QuadraticCouplingCoefficientRotating(CCR):
         # store the attribute that determines whether debug properties are stored
         self._store_debug = store_debug
         # store which of the modes is complex conjugated in the expression for the coupling coefficient
-        self._conj_cc = conj_cc if conj_cc else (True, False, False)
+        self._conj_cc = (
+            (True, False, False) if conj_cc is None else conj_cc
+        )
         # store the frequency handler object
         self._freq_handler = freq_handler
         # store attributes related to using OpenMP for (parallelized) numerical integrations
-- 
2.43.0


From df1d4d7f092d1269c45ca9db3b82b348cb1cf316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 40/73] fix: coupling coefficients use the complex conjugate of
 the azimuthal displacements of conjugated modes

---
 ...quadratic_coupling_coefficient_rotating.py | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 5b02c90..c32aff4 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -438,6 +438,8 @@ class QuadraticCouplingCoefficientRotating(CCR):
         _norm_object()  # call and perform normalization
         # store the normalizing factors
         self._normalizing_factors_modes = _norm_object.normalizing_factors
+        # conjugate the azimuthal parts of the displacements of the complex-conjugated modes
+        self._conjugate_houghs()
         # -- initialize the attribute that will hold the value of the coupling coefficient
         self._coupling_coefficient = None
         # -- initialize the attribute that will hold the coupling coefficient as a function of radius
@@ -663,6 +665,32 @@ class QuadraticCouplingCoefficientRotating(CCR):
                         f'_{_attr}_mode_{_i}', normed=True
                     )
 
+    # method that performs the complex conjugation of the azimuthal parts of the displacements
+    def _conjugate_houghs(self) -> None:
+        """Complex conjugates the azimuthal parts of the displacements of the modes that are complex conjugated in the coupling coefficient.
+
+        Notes
+        -----
+        The azimuthal displacement and the azimuthal derivatives are imaginary (their factor i is part of the expressions of the coupling coefficient), so that their Hough functions change sign. The mode energies need to be computed before calling this method.
+        """
+        # a single boolean denotes whether the first mode is complex conjugated
+        _conj = (
+            (self._conj_cc, False, False)
+            if isinstance(self._conj_cc, bool)
+            else self._conj_cc
+        )
+        for _i, _conjugated in enumerate(_conj):
+            if _conjugated:
+                for _attr in (
+                    'hp',
+                    'theta_der_hp',
+                    'theta_der_hp_theta',
+                    'theta_phi',
+                    'mhr',
+                ):
+                    _name = f'_{_attr}_mode_{_i + 1}'
+                    setattr(self, _name, -1.0 * getattr(self, _name))
+
     # internal utility method that performs the integration of the radial terms
     def _rad_int(
         self,
-- 
2.43.0


From 4cd29a137091ecd99d5527ed751e85adcc881676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 41/73] fix: second derivatives of polytropic structures have
 their limits in the centre

---
 aesolver/aesolver/polytropic_computations/poly_struct_comps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aesolver/aesolver/polytropic_computations/poly_struct_comps.py b/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
index 8938ea3..a2fe410 100644
--- a/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
+++ b/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
@@ -210,6 +210,8 @@ class PolytropicAdditionalStructureInformation:
         self._dtheta2 = np.nan_to_num(
             (-(self._theta**self._n)) - (2.0 / self._z) * self._dtheta
         )
+        # limit of the Lane-Emden equation in the center
+        self._dtheta2[self._z == 0.0] = -1.0 / 3.0
 
     def _compute_dtheta_3(self) -> None:
         """Compute and store the third polytropic theta parameter z-derivative."""
-- 
2.43.0


From f812f73e40a28e55264c7a98a8619c7e8cb92f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 42/73] fix: polytropic structure on another grid than the
 modes is interpolated

---
 .../super_coupling_coefficients.py            | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 33e4a21..1ba647a 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -786,6 +786,9 @@ class SuperCouplingCoefficient:
             )
             # loop over the dictionary items
             for _k, _v in my_internal_structure_dict.items():
+                # check if it should be extracted
+                if _k in _exclude_list:
+                    continue
                 # do interpolation, set the interpolated attribute and add profile suffix to parameter to distinguish it
                 if (
                     isinstance(_v, float)
@@ -793,7 +796,7 @@ class SuperCouplingCoefficient:
                     or isinstance(_v, int)
                 ):
                     # no profile --> no interpolation
-                    setattr(self, f'_{_k}', _v)
+                    setattr(self, f'_{_k}_profile', _v)
                 else:
                     # profile --> needs interpolation
                     if self._use_polytropic:
@@ -1206,17 +1209,12 @@ class SuperCouplingCoefficient:
         if interp_necessary:
             # get the attribute
             _my_att = my_dict.get(my_attr)
-            # try interpolation to return GYRE-fitted attribute
+            if _my_att is None:
+                return None
+            # interpolate to return GYRE-fitted attribute
             if typing.TYPE_CHECKING:
                 assert isinstance(_my_att, np.ndarray)
-            if np.isnan(
-                my_interp := np.interp(
-                    self._x, radial_structure_profile, _my_att
-                )
-            ):  # if it is NaN, _my_att is None!
-                return None
-            else:
-                return my_interp
+            return np.interp(self._x, radial_structure_profile, _my_att)
         else:
             # no interpolation necessary: directly return attribute
             my_att = my_dict.get(my_attr)
@@ -1239,7 +1237,7 @@ class SuperCouplingCoefficient:
             The dictionary containing the attributes that need to be unpacked and stored in the object.
         """
         # compute the helper normalized radius model grid for possibly necessary interpolations
-        _help_r = self._r_profile / self._R_star
+        _help_r = my_dict['r'] / self._R_star
         # check if interpolations are needed
         _interp_needed = not (_help_r.shape[0] == self._x.shape[0])
         # store common kwargs for interpolation
-- 
2.43.0


From ad11ee41b5ffda9e63fd3a14382e20debb31e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 43/73] fix: structure factors of polytropes have their limits
 in the centre

---
 .../polytropic_computations/poly_struct_comps.py       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aesolver/aesolver/polytropic_computations/poly_struct_comps.py b/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
index a2fe410..f55758c 100644
--- a/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
+++ b/aesolver/aesolver/polytropic_computations/poly_struct_comps.py
@@ -481,6 +481,10 @@ class PolytropicAdditionalStructureInformation:
         self._v_2 = (
             -1.0 * (self._n + 1.0) * self._dt_t_ratio * (self._z_s / self._x)
         )
+        # limit in the center
+        self._v_2[self._z == 0.0] = (
+            (self._n + 1.0) * (self._z_s**2.0) / 3.0
+        )
 
     def _compute_v(self) -> None:
         """Computes and stores the V structure factor."""
@@ -489,10 +493,14 @@ class PolytropicAdditionalStructureInformation:
     def _compute_u(self) -> None:
         """Computes and stores the U structure factor."""
         self._u = -self._z * (self._theta**self._n) / self._dtheta
+        # limit in the center
+        self._u[self._z == 0.0] = 3.0
 
     def _compute_c1(self) -> None:
         """Computes and stores the c1 structure factor."""
         self._c1 = self._x / self._dt_ratio
+        # limit in the center
+        self._c1[self._z == 0.0] = -3.0 * self._dtheta[-1] / self._z_s
 
     def _compute_as(self) -> None:
         """Computes and stores the As structure factor."""
@@ -515,3 +523,5 @@ class PolytropicAdditionalStructureInformation:
         self._brunt_squared = (self._surf_grav * self._as) / (
             self._x * self._radius
         )
+        # limit in the center
+        self._brunt_squared[self._z == 0.0] = 0.0
-- 
2.43.0


From 8a7dc8c70798b6445f5c13fccf6c4f70e5ac34d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:11 +0000
Subject: [PATCH 44/73] fix: surface perturbations are normalised by the mode
 normalisation factors

The entry looked up in the coupling information became the adiabaticity
flag when the contributions were appended to it.
---
 aesolver/aesolver/solver/quadratic_solver.py              | 8 ++++----
 .../solver/solver_base_classes/quadratic_solver.py        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aesolver/aesolver/solver/quadratic_solver.py b/aesolver/aesolver/solver/quadratic_solver.py
index c59b88a..9f498fa 100644
--- a/aesolver/aesolver/solver/quadratic_solver.py
+++ b/aesolver/aesolver/solver/quadratic_solver.py
@@ -1043,7 +1043,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -1071,7 +1071,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # print mode information
@@ -1092,8 +1092,8 @@ class QuadraticAESolver:
         _log_lag_var = np.log10(self._lag_var_surf_lum)
         _q_factor_prod = np.sqrt(self._quality_factor_products[-1])
         _log_q_factor_prod = np.log10(_q_factor_prod)
-        _dimless_omega_a_cor = self._coupling_info[radial_order_combo_nr][-4][0]
-        _dimless_omega_a_in = self._coupling_info[radial_order_combo_nr][-4][1]
+        _dimless_omega_a_cor = self._coupling_info[radial_order_combo_nr][4][0]
+        _dimless_omega_a_in = self._coupling_info[radial_order_combo_nr][4][1]
         # compute the equilibrium amplitudes --> TODO: update this!!!
         coefficient_factor = _abs_eta * _q_factor_prod
         coefficient_factor = 1.0 / coefficient_factor
diff --git a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
index f3a8aad..7b5dc2c 100644
--- a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
+++ b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
@@ -808,7 +808,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -836,7 +836,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # load 1 specific mode triad and compute the necessary details and  coupling coefficients (NOT THE COUPLING COEFFICIENT PROFILE)
-- 
2.43.0


From 478961689cc40a55cd73d132c25986335511090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:11 +0000
Subject: [PATCH 45/73] fix: a conjugation request of False conjugates no mode
 in the pre-checks

---
 .../aesolver/pre_checks/generic/generic_quadratic_checks.py  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index e8b504a..5a37649 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -57,8 +57,11 @@ class PreCheckQuadratic:
         # default value initialization
         if triads is None:
             triads = [(1, 2, 3)]
-        if conjugation is None or isinstance(conjugation[0], bool):
+        if conjugation is None:
             conjugation = [(True, False, False)] * len(triads)
+        elif isinstance(conjugation[0], bool):
+            # same meaning as for the coupling coefficient
+            conjugation = [(conjugation[0], False, False)] * len(triads)
         # store the boolean that dictates how outputs are generated
         self._all_fulfilled = all_fulfilled
         # store the mode info object
-- 
2.43.0


From 29bd5819fd8908c6aee63c6245dc0bc165019781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 46/73] fix: a parent with a single resonant triad has no
 second-lowest threshold

---
 aesolver/ae_analyzer/library_functions/masking.py | 4 ++++
 aesolver/aeplotter/library_functions/masking.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index 1a2b944..e7ec691 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a parent that takes part in a single triad has no competing triads
+        if len(_threshs) == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 6989083..a45a014 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a parent that takes part in a single triad has no competing triads
+        if len(_threshs) == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
-- 
2.43.0


From 6cfe380a799df49c9f782e3f4ab5b4a949c0dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 47/73] fix: frequencies mirrored three times end up within the
 Nyquist range

---
 aesolver/aeplotter/quadratic_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 33c61c9..85d9efb 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -761,7 +761,7 @@ class QuadraticAEPlotter:
                 & neg_mask
             )
             _dd['min_inertial_freq_stack'][three_mirror] = (
-                -3.0 * kepler_notional_nyquist
+                -2.0 * kepler_notional_nyquist
             ) - my_minimal_frequency[three_mirror]
             # --- 4 mirroring operations ---
             four_mirror = (
-- 
2.43.0


From 8d0b7133b2ac40958c10899481eb9cbd2a8445dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 48/73] fix: only the triad that attains the lowest threshold
 of its modes is isolated

---
 aesolver/ae_analyzer/library_functions/masking.py | 2 ++
 aesolver/aeplotter/library_functions/masking.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index e7ec691..8162d1e 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -158,6 +158,8 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
     _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    # only the triad that attains that lowest threshold itself can be isolated
+    _all_same &= _valued_thresh == _lowest_thresh_surf[:, 0]
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index a45a014..faf029c 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -158,6 +158,8 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
     _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    # only the triad that attains that lowest threshold itself can be isolated
+    _all_same &= _valued_thresh == _lowest_thresh_surf[:, 0]
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
-- 
2.43.0


From cfb224a54e725ee27e33d27fb842a859b64f2811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:03 +0000
Subject: [PATCH 49/73] fix: result files of separate objects may start with a
 single file

---
 aesolver/ae_analyzer/quadratic_stationary_analyzer.py | 9 +++++++++
 aesolver/aeplotter/quadratic_plotter.py               | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
index 133a7c0..70f5dad 100644
--- a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
+++ b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
@@ -150,6 +150,10 @@ class QuadraticAEStationaryAnalyzer:
     def _load_analysis_data(
         self, my_file_name_or_names: list[str]
     ) -> None:
+        # a (first) file name may be listed next to lists of file names
+        if not all(isinstance(_fn, str) for _fn in my_file_name_or_names):
+            self._load_data_of_separate_objects(my_file_name_or_names)
+            return
         # load the data for each of the individual files
         loaded_data_files = [
             self._load_specific_file_data(file_path=_linked_name)
@@ -166,6 +170,11 @@ class QuadraticAEStationaryAnalyzer:
     @multimethod
     def _load_analysis_data(
         self, my_file_name_or_names: list[list[str]]
+    ) -> None:
+        self._load_data_of_separate_objects(my_file_name_or_names)
+
+    def _load_data_of_separate_objects(
+        self, my_file_name_or_names: 'Sequence[str | list[str]]'
     ) -> None:
         # load the data for each of the individual files
         self._list_data_dict = []
diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 85d9efb..9322b34 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -234,6 +234,10 @@ class QuadraticAEPlotter:
     def _load_sharpness_overview_data(
         self, my_file_name_or_names: list[str]
     ) -> None:
+        # a (first) file name may be listed next to lists of file names
+        if not all(isinstance(_fn, str) for _fn in my_file_name_or_names):
+            self._load_data_of_separate_objects(my_file_name_or_names)
+            return
         # load the data for each of the individual files
         loaded_data_files = [
             self._load_specific_file_data(file_path=_linked_name)
@@ -250,6 +254,11 @@ class QuadraticAEPlotter:
     @multimethod
     def _load_sharpness_overview_data(
         self, my_file_name_or_names: list[list[str]]
+    ) -> None:
+        self._load_data_of_separate_objects(my_file_name_or_names)
+
+    def _load_data_of_separate_objects(
+        self, my_file_name_or_names: 'Sequence[str | list[str]]'
     ) -> None:
         # load the data for each of the individual files
         self._list_data_dict = []
-- 
2.43.0


From 47dd32f25c0e7d6ff047cbea2d585f8e152c6cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 50/73] fix: the cython jackknife likelihood counts the data,
 not the bins

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 6cef928..15a1106 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -451,8 +451,8 @@ def hogg_jackknife_likelihood_cython(
                         use_parallel=use_parallel,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood
                     _my_jackknife_likelihood = _my_jacky_func(
@@ -644,8 +644,8 @@ def hogg_jackknife_likelihood_cython_log(
                         bin_phase=0.0,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood in a parallel or serial way
                     _my_jackknife_likelihood = _my_jacky_func(
-- 
2.43.0


From 785ef2496dd70d799ce1ff3aed535b5fa830e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 51/73] fix: numexpr and cython histograms of a specified width
 can be computed

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 15a1106..b7fe846 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -809,7 +809,7 @@ def histogram_cython_spec_width(
         # get the histogram counts
         hist_counts = _cython_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index aca69e0..8e958a6 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -838,7 +838,7 @@ def histogram_numexpr_spec_width(
         # get the histogram counts
         hist_counts = _numexpr_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
-- 
2.43.0


From 92b8de0aba981b6ff76caa57762f7bf822b39e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 52/73] fix: verbose selection of a constant bin width does not
 fail

---
 histogram_maker/hogg_jacky/blas_jacky.py            | 2 +-
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 histogram_maker/hogg_jacky/numpy_iterator_jacky.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 265854f..9d39add 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -592,7 +592,7 @@ def hogg_jackknife_likelihood_blas(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index b7fe846..48f4e88 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -469,7 +469,7 @@ def hogg_jackknife_likelihood_cython(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 8e958a6..17ac80f 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -550,7 +550,7 @@ def hogg_jackknife_likelihood_numexpr(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index 66b77ef..e4d82bc 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -342,7 +342,7 @@ def hogg_jackknife_likelihood_numpy(
                 # if verbose: print output
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=max_bin_width, max_combo=_max_combo
+                        max_bin_width_edges=max_bin_width, max_combo=_max_combo
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
@@ -516,7 +516,7 @@ def hogg_jackknife_likelihood_iterator(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width, max_combo=my_combination
+                        max_bin_width_edges=my_bin_width, max_combo=my_combination
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
-- 
2.43.0


From 966e6a9d71d3c6a2d1bad5c5be10ac9ba8c9c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 53/73] fix: missing values do not affect the histogram of the
 other data

---
 histogram_maker/hogg_jacky/blas_jacky.py            |  8 ++++++++
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py |  8 ++++++++
 histogram_maker/hogg_jacky/numexpr_jacky.py         |  8 ++++++++
 histogram_maker/hogg_jacky/numpy_iterator_jacky.py  | 12 ++++++++++++
 4 files changed, 36 insertions(+)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 9d39add..1805fe4 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -508,6 +508,10 @@ def hogg_jackknife_likelihood_blas(
         # NOT ENOUGH INFO AVAILABLE: EXIT
         sys.exit()
     else:
+        # retain only the data that have a value
+        my_data = retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
         # obtain the range of the parameter to be binned, if possible
         if not check_data_shape(my_data=my_data):
             return None, None, None, None
@@ -691,6 +695,10 @@ def hogg_jackknife_likelihood_blas_log(
         # NOT ENOUGH INFO AVAILABLE: EXIT
         sys.exit()
     else:
+        # retain only the data that have a value
+        my_data = retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
         # obtain the range of the parameter to be binned, if possible
         if not check_data_shape(my_data=my_data):
             return None, None, None, None
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 48f4e88..d8e88ea 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -383,6 +383,10 @@ def hogg_jackknife_likelihood_cython(
         # NOT ENOUGH INFO AVAILABLE: EXIT
         sys.exit()
     else:
+        # retain only the data that have a value
+        my_data = retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
         # obtain the range of the parameter to be binned, if possible
         if not check_data_shape(my_data=my_data):
             return None, None, None, None
@@ -584,6 +588,10 @@ def hogg_jackknife_likelihood_cython_log(
         # NOT ENOUGH INFO AVAILABLE: EXIT
         sys.exit()
     else:
+        # retain only the data that have a value
+        my_data = retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
         # obtain the range of the parameter to be binned, if possible
         if not check_data_shape(my_data=my_data):
             return None, None, None, None
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 17ac80f..4035ea6 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -466,6 +466,10 @@ def hogg_jackknife_likelihood_numexpr(
         # NOT ENOUGH INFO AVAILABLE: EXIT
         sys.exit()
     else:
+        # retain only the data that have a value
+        my_data = retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
         # obtain the range of the parameter to be binned, if possible
         if not check_data_shape(my_data=my_data):
             return None, None, None, None
@@ -646,6 +650,10 @@ def hogg_jackknife_likelihood_numexpr_log(
         # NOT ENOUGH INFO AVAILABLE: EXIT
         sys.exit()
     else:
+        # retain only the data that have a value
+        my_data = retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
         # obtain the range of the parameter to be binned, if possible
         if not check_data_shape(my_data=my_data):
             return None, None, None, None
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index e4d82bc..54e6f6a 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -259,6 +259,10 @@ def hogg_jackknife_likelihood_numpy(
         # NOT ENOUGH INFO AVAILABLE: EXIT
         sys.exit()
     else:
+        # retain only the data that have a value
+        my_data = retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
         # obtain the range of the parameter to be binned, if possible
         if not check_data_shape(my_data=my_data):
             return None, None, None, None
@@ -441,6 +445,10 @@ def hogg_jackknife_likelihood_iterator(
         # NOT ENOUGH INFO AVAILABLE: EXIT
         sys.exit()
     else:
+        # retain only the data that have a value
+        my_data = retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
         # obtain the range of the parameter to be binned, if possible
         if not check_data_shape(my_data=my_data):
             return None, None, None, None
@@ -613,6 +621,10 @@ def hogg_jackknife_likelihood_iterator_log(
         # NOT ENOUGH INFO AVAILABLE: EXIT
         sys.exit()
     else:
+        # retain only the data that have a value
+        my_data = retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
         # obtain the range of the parameter to be binned, if possible
         if not check_data_shape(my_data=my_data):
             return None, None, None, None
-- 
2.43.0


From 17bfb4623fd5d6d555defc3c6e3a81c1a793abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 54/73] fix: empty bins do not invalidate the jackknife
 likelihood

---
 histogram_maker/hogg_jacky/blas_jacky.py         | 13 +++++++++----
 .../cython_jacky/cython_jacky_jacky.pyx          | 16 ++++++++++++----
 histogram_maker/hogg_jacky/numexpr_jacky.py      |  4 ++--
 .../hogg_jacky/numpy_iterator_jacky.py           | 10 ++++++----
 4 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 1805fe4..8f259d7 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -406,8 +406,9 @@ def _my_jacky(
         1.0 / (empirical_probability_conversion_factor * bin_width),
         daxpy(bin_values, np.full_like(bin_values, alpha_val - 1.0)),
     )
-    # compute the jackknife likelihood and return it
-    return ddot(bin_values, np.log(my_log_input))
+    # compute the jackknife likelihood and return it (empty bins contain no data, and do not contribute)
+    _filled = bin_values > 0.0
+    return ddot(bin_values[_filled], np.log(my_log_input[_filled]))
 
 
 def _my_jacky_log_scale(
@@ -443,8 +444,12 @@ def _my_jacky_log_scale(
         1.0 / empirical_probability_conversion_factor,
         daxpy(bin_values, np.full_like(bin_values, alpha_val - 1.0)),
     )
-    # compute the jackknife likelihood and return it
-    return ddot(bin_values, np.log(np.divide(second_part_log, bw_arr)))
+    # compute the jackknife likelihood and return it (empty bins contain no data, and do not contribute)
+    _filled = bin_values > 0.0
+    return ddot(
+        bin_values[_filled],
+        np.log(np.divide(second_part_log[_filled], bw_arr[_filled])),
+    )
 
 
 def hogg_jackknife_likelihood_blas(
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_jacky.pyx b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_jacky.pyx
index 0471873..cc5acb1 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_jacky.pyx
+++ b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_jacky.pyx
@@ -16,7 +16,9 @@ cdef _cython_jacky_serial_loop(Py_ssize_t bin_view_size, cnp.float64_t[::1] bin_
     cdef cnp.float64_t jacky = 0.0
     # loop to fill binning array using view
     for d in range(bin_view_size):
-        jacky += bin_data_view[d] * log((bin_data_view[d] + alpha - 1.0) / (empirical_probability_conversion_fac * bw))
+        # empty bins contain no data, and do not contribute
+        if bin_data_view[d] > 0.0:
+            jacky += bin_data_view[d] * log((bin_data_view[d] + alpha - 1.0) / (empirical_probability_conversion_fac * bw))
     # return the jackknife likelihood
     return jacky
 
@@ -39,7 +41,9 @@ cdef _cython_variable_bw_jacky_serial_loop(Py_ssize_t view_size, cnp.float64_t[:
     cdef cnp.float64_t jacky = 0.0
     # loop to fill binning array using view
     for d in prange(view_size, nogil=True):
-        jacky += bin_data_view[d] * log((bin_data_view[d] + alpha - 1.0) / (empirical_probability_conversion_fac * (my_bin_edges[d + 1] - my_bin_edges[d])))
+        # empty bins contain no data, and do not contribute
+        if bin_data_view[d] > 0.0:
+            jacky += bin_data_view[d] * log((bin_data_view[d] + alpha - 1.0) / (empirical_probability_conversion_fac * (my_bin_edges[d + 1] - my_bin_edges[d])))
     # return the jackknife likelihood
     return jacky
 
@@ -62,7 +66,9 @@ cdef _cython_jacky_parallel_loop(Py_ssize_t view_size, cnp.float64_t[::1] bin_da
     cdef cnp.float64_t jacky = 0.0
     # loop to fill binning array using view
     for d in range(view_size):
-        jacky += bin_data_view[d] * log((bin_data_view[d] + alpha - 1.0) / (empirical_probability_conversion_fac * bw))
+        # empty bins contain no data, and do not contribute
+        if bin_data_view[d] > 0.0:
+            jacky += bin_data_view[d] * log((bin_data_view[d] + alpha - 1.0) / (empirical_probability_conversion_fac * bw))
     # return the jackknife likelihood
     return jacky
 
@@ -85,7 +91,9 @@ cdef _cython_variable_bw_jacky_parallel_loop(Py_ssize_t view_size, cnp.float64_t
     cdef cnp.float64_t jacky = 0.0
     # loop to fill binning array using view
     for d in prange(view_size, nogil=True):
-        jacky += bin_data_view[d] * log((bin_data_view[d] + alpha - 1.0) / (empirical_probability_conversion_fac * (my_bin_edges[d + 1] - my_bin_edges[d])))
+        # empty bins contain no data, and do not contribute
+        if bin_data_view[d] > 0.0:
+            jacky += bin_data_view[d] * log((bin_data_view[d] + alpha - 1.0) / (empirical_probability_conversion_fac * (my_bin_edges[d + 1] - my_bin_edges[d])))
     # return the jackknife likelihood
     return jacky
 
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 4035ea6..fa39521 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -359,7 +359,7 @@ def _numexpr_jacky(
         Jackknife likelihood for the chosen bins.
     """
     return numexpr.evaluate(
-        'sum(bv * log((bv + alpha - 1.0)/(ep_cf * bw)), axis=0)',
+        'sum(where(bv > 0, bv * log((bv + alpha - 1.0)/(ep_cf * bw)), 0.0), axis=0)',
         {
             'bv': bin_values,
             'ep_cf': empirical_probability_conversion_factor,
@@ -394,7 +394,7 @@ def _numexpr_jacky_log(
         Jackknife likelihood for the chosen bins.
     """
     return numexpr.evaluate(
-        'sum(bin_vals * log((bin_vals + alpha - 1.0)/(empirical_probability_conversion_f * (beh - bel))), axis=0)',
+        'sum(where(bin_vals > 0, bin_vals * log((bin_vals + alpha - 1.0)/(empirical_probability_conversion_f * (beh - bel))), 0.0), axis=0)',
         {
             'beh': bin_edges[1:],
             'bel': bin_edges[:-1],
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index 54e6f6a..00c89bb 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -124,8 +124,9 @@ def _compute_jacky(
     my_log_input = (bin_values + alpha_val - 1.0) / (
         empirical_probability_conversion_factor * bin_width
     )
-    # compute the jackknife likelihood and return it
-    return np.vdot(bin_values, np.log(my_log_input))
+    # compute the jackknife likelihood and return it (empty bins contain no data, and do not contribute)
+    _filled = bin_values > 0
+    return np.vdot(bin_values[_filled], np.log(my_log_input[_filled]))
 
 
 def _compute_jacky_log_scale(
@@ -158,8 +159,9 @@ def _compute_jacky_log_scale(
     ) * empirical_probability_conversion_factor
     # compute value of which a log must be taken
     log_value = np.divide(bin_values + (alpha_val - 1.0), bw_arr_factor)
-    # compute the jackknife likelihood and return it
-    return np.vdot(bin_values, np.log(log_value))
+    # compute the jackknife likelihood and return it (empty bins contain no data, and do not contribute)
+    _filled = bin_values > 0
+    return np.vdot(bin_values[_filled], np.log(log_value[_filled]))
 
 
 def _get_empirical_probability_histogram(
-- 
2.43.0


From f526d8a03baf45fabb9f60c13cc34d3cf88ee594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 55/73] fix: densities of logarithmic BLAS histograms are
 divided by the width of each bin

---
 histogram_maker/hogg_jacky/blas_jacky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 8f259d7..db7e7c1 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -211,7 +211,7 @@ def empirical_density_histogram_blas(
     # compute empirical density histogram and return it together with the bin edges
     try:
         return (
-            dscal(1.0 / (my_data.shape[0] * bin_width), count_histogram),
+            np.divide(count_histogram, my_data.shape[0] * bin_width),
             bin_edges,
             bin_width,
         )
-- 
2.43.0


From 7f9f0d64cb4e0ccb53ec452e850d89752ff0601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 56/73] fix: all backends shift the bins by the binning phase
 in the same direction

---
 .../hogg_jacky/cython_jacky/cython_jacky_binning.pyx          | 4 ++--
 histogram_maker/hogg_jacky/numexpr_jacky.py                   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx
index 01cb097..bd01557 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx
+++ b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx
@@ -32,7 +32,7 @@ cdef _cython_binning_serial_loop(Py_ssize_t view_size, cnp.float64_t[::1] my_dat
     cdef int d
     # loop to fill binning array using view
     for d in range(view_size):
-        binning_view[d] = <cnp.int32_t>floor(((my_data_view[d] - lowest_val) / bin_width) - bin_phase)
+        binning_view[d] = <cnp.int32_t>floor(((my_data_view[d] - lowest_val) / bin_width) + bin_phase)
 
 
 # @cython.boundscheck(False)
@@ -82,7 +82,7 @@ cdef _cython_binning_parallel_loop(Py_ssize_t view_size, cnp.float64_t[::1] my_d
     cdef int i
     # attempt to fill the binning array
     for i in prange(view_size, nogil=True):
-        binning_view[i] = <cnp.int32_t>floor(((my_data_view[i] - lowest_val) / bin_width) - bin_phase)
+        binning_view[i] = <cnp.int32_t>floor(((my_data_view[i] - lowest_val) / bin_width) + bin_phase)
 
 
 # @cython.boundscheck(False)
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index fa39521..127e29d 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -263,7 +263,7 @@ def _numexpr_binning(
     """
     if my_data_min is None:
         float_result = numexpr.evaluate(
-            '((d - d_min)/bw) - bp',
+            '((d - d_min)/bw) + bp',
             {
                 'd': my_data,
                 'd_min': my_data.min(),
@@ -273,7 +273,7 @@ def _numexpr_binning(
         )
     else:
         float_result = numexpr.evaluate(
-            '((d - d_min)/bw) - bp',
+            '((d - d_min)/bw) + bp',
             {
                 'd': my_data,
                 'd_min': my_data_min,
-- 
2.43.0


From 5de9890e3264d8e0696ce1826ff10f53a05e113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 57/73] fix: the binning parameters contain the optimal binning
 phase

---
 histogram_maker/hogg_jacky/blas_jacky.py            | 4 ++--
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index db7e7c1..4d42043 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -608,7 +608,7 @@ def hogg_jackknife_likelihood_blas(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
@@ -793,7 +793,7 @@ def hogg_jackknife_likelihood_blas_log(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index d8e88ea..6c8f273 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -480,7 +480,7 @@ def hogg_jackknife_likelihood_cython(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 127e29d..a8dbe27 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -561,7 +561,7 @@ def hogg_jackknife_likelihood_numexpr(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
-- 
2.43.0


From 878175a9f519e57245939ef069b682dccb6e4eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 58/73] fix: data that all have the same value are put in a
 single bin

---
 histogram_maker/hogg_jacky/blas_jacky.py      | 22 +++++++++++
 .../hogg_jacky/cython_jacky/cy_jacky.py       | 22 +++++++++++
 histogram_maker/hogg_jacky/numexpr_jacky.py   | 22 +++++++++++
 .../hogg_jacky/numpy_iterator_jacky.py        | 31 +++++++++++++++
 histogram_maker/hogg_jacky/shared/__init__.py |  2 +
 .../shared/shared_handling_functions.py       | 39 +++++++++++++++++++
 6 files changed, 138 insertions(+)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 4d42043..c96ef7f 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -531,6 +531,15 @@ def hogg_jackknife_likelihood_blas(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
             return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+        elif (
+            my_zero_range_out_vals := handle_zero_range_data(
+                my_data=my_data,
+                custom_bin_width=custom_bin_width,
+                empirical_probability=empirical_probability,
+                empirical_density=empirical_density,
+            )
+        ) is not None:
+            return *my_zero_range_out_vals, None
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
@@ -718,6 +727,19 @@ def hogg_jackknife_likelihood_blas_log(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
             return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+        elif (
+            not negative_values
+            and (
+                my_zero_range_out_vals := handle_zero_range_data(
+                    my_data=my_data,
+                    custom_bin_width=custom_bin_width,
+                    empirical_probability=empirical_probability,
+                    empirical_density=empirical_density,
+                )
+            )
+            is not None
+        ):
+            return *my_zero_range_out_vals, None
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 6c8f273..75f2265 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -401,6 +401,15 @@ def hogg_jackknife_likelihood_cython(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
             return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+        elif (
+            my_zero_range_out_vals := handle_zero_range_data(
+                my_data=my_data,
+                custom_bin_width=custom_bin_width,
+                empirical_probability=empirical_probability,
+                empirical_density=empirical_density,
+            )
+        ) is not None:
+            return *my_zero_range_out_vals, None
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
@@ -606,6 +615,19 @@ def hogg_jackknife_likelihood_cython_log(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
             return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+        elif (
+            not negative_values
+            and (
+                my_zero_range_out_vals := handle_zero_range_data(
+                    my_data=my_data,
+                    custom_bin_width=custom_bin_width,
+                    empirical_probability=empirical_probability,
+                    empirical_density=empirical_density,
+                )
+            )
+            is not None
+        ):
+            return *my_zero_range_out_vals, None
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index a8dbe27..b7893dc 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -484,6 +484,15 @@ def hogg_jackknife_likelihood_numexpr(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
             return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+        elif (
+            my_zero_range_out_vals := handle_zero_range_data(
+                my_data=my_data,
+                custom_bin_width=custom_bin_width,
+                empirical_probability=empirical_probability,
+                empirical_density=empirical_density,
+            )
+        ) is not None:
+            return *my_zero_range_out_vals, None
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
@@ -668,6 +677,19 @@ def hogg_jackknife_likelihood_numexpr_log(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
             return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+        elif (
+            not negative_values
+            and (
+                my_zero_range_out_vals := handle_zero_range_data(
+                    my_data=my_data,
+                    custom_bin_width=custom_bin_width,
+                    empirical_probability=empirical_probability,
+                    empirical_density=empirical_density,
+                )
+            )
+            is not None
+        ):
+            return *my_zero_range_out_vals, None
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index 00c89bb..ea9128a 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -279,6 +279,15 @@ def hogg_jackknife_likelihood_numpy(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
             return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+        elif (
+            my_zero_range_out_vals := handle_zero_range_data(
+                my_data=my_data,
+                custom_bin_width=custom_bin_width,
+                empirical_probability=empirical_probability,
+                empirical_density=empirical_density,
+            )
+        ) is not None:
+            return *my_zero_range_out_vals, None
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
@@ -465,6 +474,15 @@ def hogg_jackknife_likelihood_iterator(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
             return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+        elif (
+            my_zero_range_out_vals := handle_zero_range_data(
+                my_data=my_data,
+                custom_bin_width=custom_bin_width,
+                empirical_probability=empirical_probability,
+                empirical_density=empirical_density,
+            )
+        ) is not None:
+            return *my_zero_range_out_vals, None
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
@@ -641,6 +659,19 @@ def hogg_jackknife_likelihood_iterator_log(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
             return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+        elif (
+            not negative_values
+            and (
+                my_zero_range_out_vals := handle_zero_range_data(
+                    my_data=my_data,
+                    custom_bin_width=custom_bin_width,
+                    empirical_probability=empirical_probability,
+                    empirical_density=empirical_density,
+                )
+            )
+            is not None
+        ):
+            return *my_zero_range_out_vals, None
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
diff --git a/histogram_maker/hogg_jacky/shared/__init__.py b/histogram_maker/hogg_jacky/shared/__init__.py
index ef8a65a..037de92 100644
--- a/histogram_maker/hogg_jacky/shared/__init__.py
+++ b/histogram_maker/hogg_jacky/shared/__init__.py
@@ -15,6 +15,7 @@ from .shared_computation_functions import (
 )
 from .shared_handling_functions import (
     handle_single_data_point,
+    handle_zero_range_data,
     handle_return_binning_parameters,
 )
 from .shared_log_functions import print_maximal_values, print_single_value
@@ -35,6 +36,7 @@ __all__ = [
     'empirical_probability_histogram_log_counts',
     'empirical_density_histogram_log_counts',
     'handle_single_data_point',
+    'handle_zero_range_data',
     'print_maximal_values',
     'print_single_value',
     'retrieve_valued_data',
diff --git a/histogram_maker/hogg_jacky/shared/shared_handling_functions.py b/histogram_maker/hogg_jacky/shared/shared_handling_functions.py
index 3e61f33..3c187e2 100644
--- a/histogram_maker/hogg_jacky/shared/shared_handling_functions.py
+++ b/histogram_maker/hogg_jacky/shared/shared_handling_functions.py
@@ -5,6 +5,7 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 # import modules
 import logging
 import sys
+import numpy as np
 
 # import type aliases from separate modules
 from ..typing_info import D_arr, D_list, D_var, I_var
@@ -39,6 +40,44 @@ def handle_single_data_point(
 
 
 # handle return of data binning parameters
+def handle_zero_range_data(
+    my_data: D_arr,
+    custom_bin_width: D_list,
+    empirical_probability: bool,
+    empirical_density: bool,
+) -> tuple[D_arr, D_arr, D_var] | None:
+    """Handles the case in which all data points have the same value, so that no bin width can be derived from their range.
+
+    Parameters
+    ----------
+    my_data : D_arr
+        Contains the data.
+    custom_bin_width : D_list
+        Contains the custom width of the single bin used for such data.
+    empirical_probability : bool
+        If True, retrieve an empirical probability histogram.
+    empirical_density : bool
+        If True, and 'empirical_probability' is False, retrieve an empirical density histogram. If both are False, retrieve a count histogram.
+
+    Returns
+    -------
+    tuple[D_arr, D_arr, D_var] | None
+        The histogram, its bin edges and its bin width. None if the data points do not all have the same value.
+    """
+    if np.ptp(my_data) > 0.0:
+        return None
+    # all data are located in a single bin that is centered on their value
+    bin_width = custom_bin_width[0]
+    bin_edges = my_data[0] + np.array([-0.5, 0.5]) * bin_width
+    if empirical_probability:
+        hist = np.array([1.0])
+    elif empirical_density:
+        hist = np.array([1.0 / bin_width])
+    else:
+        hist = np.array([my_data.shape[0]], dtype=np.float64)
+    return hist, bin_edges, bin_width
+
+
 def handle_return_binning_parameters(combination_obj: list | tuple) -> dict:
     """Reformats the binning parameters into a dictionary from a passed object (list or tuple) that contains those optimal parameters.
 
-- 
2.43.0


From 82d0826bb2b970fec69a78c472d99d9e8a68fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 59/73] fix: missing values are not counted in histograms with
 specified bins

---
 histogram_maker/hogg_jacky/blas_jacky.py         | 16 ++++++++++++----
 .../hogg_jacky/cython_jacky/cy_jacky.py          | 16 ++++++++++++----
 histogram_maker/hogg_jacky/numexpr_jacky.py      | 16 ++++++++++++----
 .../hogg_jacky/numpy_iterator_jacky.py           | 16 ++++++++++++----
 .../shared/shared_computation_functions.py       |  2 ++
 5 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index c96ef7f..1430503 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -888,8 +888,12 @@ def histogram_blas_spec_width(
     # GUARD FOR BIN WIDTH OR DATA SPECIFIED AS NONE
     if my_bw is None or my_data is None:
         return None
-    # GUARD FOR ARRAY WITH ZERO ENTRIES
-    elif my_data.shape[0] == 0:
+    # GUARD FOR ARRAY WITH ZERO (NON-NAN) ENTRIES
+    elif (
+        my_data := retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
+    ).shape[0] == 0:
         return None
     else:
         if empirical_probability:
@@ -957,8 +961,12 @@ def histogram_blas_log_spec_edges(
     # GUARD FOR BIN_EDGES OR DATA SPECIFIED AS NONE
     if my_bin_edges is None or my_data is None:
         return None
-    # GUARD FOR ARRAY WITH ZERO ENTRIES
-    elif my_data.shape[0] == 0:
+    # GUARD FOR ARRAY WITH ZERO (NON-NAN) ENTRIES
+    elif (
+        my_data := retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
+    ).shape[0] == 0:
         return None
     elif negative_values:
         return None
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 75f2265..311012a 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -832,8 +832,12 @@ def histogram_cython_spec_width(
     # GUARD FOR BIN WIDTH OR DATA SPECIFIED AS NONE
     if my_bw is None or my_data is None:
         return None
-    # GUARD FOR ARRAY WITH ZERO ENTRIES
-    elif my_data.shape[0] == 0:
+    # GUARD FOR ARRAY WITH ZERO (NON-NAN) ENTRIES
+    elif (
+        my_data := retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
+    ).shape[0] == 0:
         return None
     else:
         # get the histogram counts
@@ -913,8 +917,12 @@ def histogram_cython_log_spec_edges(
     # GUARD FOR BIN_EDGES OR DATA SPECIFIED AS NONE
     if my_bin_edges is None or my_data is None:
         return None
-    # GUARD FOR ARRAY WITH ZERO ENTRIES
-    elif my_data.shape[0] == 0:
+    # GUARD FOR ARRAY WITH ZERO (NON-NAN) ENTRIES
+    elif (
+        my_data := retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
+    ).shape[0] == 0:
         return None
     elif negative_values:
         return None
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index b7893dc..0702f3f 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -861,8 +861,12 @@ def histogram_numexpr_spec_width(
     # GUARD FOR BIN WIDTH OR DATA SPECIFIED AS NONE
     if my_bw is None or my_data is None:
         return None
-    # GUARD FOR ARRAY WITH ZERO ENTRIES
-    elif my_data.shape[0] == 0:
+    # GUARD FOR ARRAY WITH ZERO (NON-NAN) ENTRIES
+    elif (
+        my_data := retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
+    ).shape[0] == 0:
         return None
     else:
         # get the histogram counts
@@ -930,8 +934,12 @@ def histogram_numexpr_log_spec_edges(
     # GUARD FOR BIN_EDGES OR DATA SPECIFIED AS NONE
     if my_bin_edges is None or my_data is None:
         return None
-    # GUARD FOR ARRAY WITH ZERO ENTRIES
-    elif my_data.shape[0] == 0:
+    # GUARD FOR ARRAY WITH ZERO (NON-NAN) ENTRIES
+    elif (
+        my_data := retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
+    ).shape[0] == 0:
         return None
     elif negative_values:
         return None
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index ea9128a..a217e72 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -811,8 +811,12 @@ def histogram_spec_width(
     # GUARD FOR BIN WIDTH SPECIFIED AS NONE: NO BIN NR AVAILABLE, OR IF MY_DATA IS SPECIFIED AS NONE
     if bin_nr is None or my_data is None:
         return None
-    # GUARD FOR ARRAY WITH ZERO ENTRIES
-    elif my_data.shape[0] == 0:
+    # GUARD FOR ARRAY WITH ZERO (NON-NAN) ENTRIES
+    elif (
+        my_data := retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
+    ).shape[0] == 0:
         return None
     else:
         # compute the optimal histogram
@@ -865,8 +869,12 @@ def histogram_log_spec_edges(
     # GUARD FOR BIN_EDGES OR DATA SPECIFIED AS NONE
     if my_bin_edges is None or my_data is None:
         return None
-    # GUARD FOR ARRAY WITH ZERO ENTRIES
-    elif my_data.shape[0] == 0:
+    # GUARD FOR ARRAY WITH ZERO (NON-NAN) ENTRIES
+    elif (
+        my_data := retrieve_valued_data(
+            my_data=my_data, nan_mask=np.isnan(my_data)
+        )
+    ).shape[0] == 0:
         return None
     elif negative_values:
         return None
diff --git a/histogram_maker/hogg_jacky/shared/shared_computation_functions.py b/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
index dc02c41..f22146b 100644
--- a/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
+++ b/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
@@ -175,6 +175,8 @@ def histogram_log_counts(
     D_arr
         Histogram counts for the specified bin edges.
     """
+    # missing values are not part of any bin
+    my_data = my_data[~np.isnan(my_data)]
     # compute bin_nr from shape of bin_edges
     bin_nr = my_bin_edges.shape[0] - 1
     # use search sorted operation to perform binning
-- 
2.43.0


From 687ad2387a333c70130b3cd6271b71b685fd35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 60/73] fix: histograms with specified bin edges contain every
 bin

---
 .../hogg_jacky/shared/shared_computation_functions.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histogram_maker/hogg_jacky/shared/shared_computation_functions.py b/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
index f22146b..cbd5ae7 100644
--- a/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
+++ b/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
@@ -191,9 +191,9 @@ def histogram_log_counts(
         f'Cannot use a constant binning phase ({binning_phase}), when generating log-transformed data histograms (whose bins are not of equal width).'
     )
     # return the histogram bin counts and edges
-    return np.bincount(_binning_result, minlength=min_nr_bins).astype(
-        np.float64, copy=False
-    )
+    return np.bincount(
+        _binning_result, minlength=max(min_nr_bins, bin_nr)
+    ).astype(np.float64, copy=False)
 
 
 def empirical_probability_histogram_log_counts(
-- 
2.43.0


From 5c8ba1f7d15a972b96668a0e8d1b984f4ac75eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:17 +0000
Subject: [PATCH 61/73] fix: apply the stated factors to the angular kernels

---
 .../angular_kernels/angular_kernel_helper.py  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index e5d91f9..0e39971 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -177,8 +177,8 @@ class AngularKernelData:
         mul_with_mu: bool,
         div_by_sin: bool,
         multiplying_factor: float,
-    ) -> None:
-        """Scales angular kernels (in-place) with specific factors to obtain further differentiation between terms.
+    ) -> np.ndarray:
+        """Scales angular kernels with specific factors to obtain further differentiation between terms.
 
         Parameters
         ----------
@@ -190,18 +190,23 @@ class AngularKernelData:
             If True, divide the product kernel by sine(theta).
         multiplying_factor : float
             Multiply the product kernel with this factor. Set to 1.0 if no multiplication is necessary.
+
+        Returns
+        -------
+        np.ndarray
+            The scaled product kernel.
         """
         match (mul_with_mu, div_by_sin):
             case (False, False):
-                my_kernel = my_kernel * multiplying_factor
+                return my_kernel * multiplying_factor
             case (True, False):
-                my_kernel = my_kernel * multiplying_factor * self._mu_vals
+                return my_kernel * multiplying_factor * self._mu_vals
             case (False, True):
-                my_kernel = (
+                return (
                     my_kernel * multiplying_factor * self._div_by_sin_scaling
                 )
             case (True, True):
-                my_kernel = (
+                return (
                     my_kernel
                     * multiplying_factor
                     * self._mu_vals
@@ -275,7 +280,7 @@ class AngularKernelData:
         my_kernel = my_angular_kernel_dict['kernel']
         if TYPE_CHECKING:
             assert isinstance(my_kernel, np.ndarray)
-        self._scale_angular_terms(
+        my_angular_kernel_dict['kernel'] = self._scale_angular_terms(
             my_kernel=my_kernel,
             div_by_sin=div_by_sin,
             mul_with_mu=mul_with_mu,
-- 
2.43.0


From a9140808f0cf46a55e873253d96a35e48e413b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:17 +0000
Subject: [PATCH 62/73] fix: no division by the sine in the angular kernels of
 the squared tangential derivatives

---
 .../angular_kernels/angular_kernel_helper.py                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index 0e39971..c4bdb05 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -474,7 +474,7 @@ class AngularKernelData:
         self.angular_kernel_terms['term_18'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'phi_phi', 'phi_phi'],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_19'] = self._load_angular_kernel_term(
             symmetrized_term_list=[
@@ -483,7 +483,7 @@ class AngularKernelData:
                 'theta_der_ht_theta',
             ],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_20'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'hr', 'theta_der_ht_theta'],
-- 
2.43.0


From e361fcaa148f25197d422c5e2958baafcdbad9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 63/73] fix: adjusted coupling profiles of stars with a
 TAR-valid core

---
 .../coupling_coefficient_plots/plot_template.py  | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
index c8d8920..59d34b2 100644
--- a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
+++ b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
@@ -269,8 +269,14 @@ def double_masking_integrated_radial_profile_figure_template_function(
             for _y_ax, _adj_tar, _summed_contrib in zip(
                 y_ax_data, _adjusted_tar_profile, _summed_contributions
             ):
+                # nothing needs to be subtracted within a TAR-valid core
+                _adjustment_values = (
+                    [0.0, *_summed_contrib]
+                    if convection_zone_selection_indices[0][0] > 0
+                    else _summed_contrib
+                )
                 for _adjustment_value, _valid_mask in zip(
-                    _summed_contrib, validity_zone_masks
+                    _adjustment_values, validity_zone_masks
                 ):
                     _adj_tar[_valid_mask] = (
                         _y_ax[_valid_mask] - _adjustment_value
@@ -366,8 +372,14 @@ def double_masking_integrated_radial_profile_figure_template_function(
                     )
                 else:
                     _adjusted_tar_profile[_convection_mask] = _conv
+            # nothing needs to be subtracted within a TAR-valid core
+            _adjustment_values = (
+                [0.0, *_summed_contributions]
+                if convection_zone_selection_indices[0][0] > 0
+                else _summed_contributions
+            )
             for _adjustment_value, _valid_mask in zip(
-                _summed_contributions, validity_zone_masks
+                _adjustment_values, validity_zone_masks
             ):
                 _adjusted_tar_profile[_valid_mask] = (
                     y_ax_data[_valid_mask] - _adjustment_value
-- 
2.43.0


From 3301a0ce180a6f55b0d29ca010ba39dc0eb6c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 64/73] fix: adjusted amplitudes stay positive when the
 adjusted coupling coefficient changes sign

---
 .../coupling_coefficient_print_functions.py               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py b/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
index 4a46f07..1fc5b70 100644
--- a/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
+++ b/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
@@ -32,13 +32,13 @@ def print_theoretical_amplitudes(
 ) -> np.ndarray:
     # display the equilibrium amplitudes
     stat_amps = stat_sol_info['equilibrium amplitudes'] * 1.0e6
-    stat_amps_adjust = stat_amps / adjust_ratio
+    stat_amps_adjust = stat_amps / np.abs(adjust_ratio)
     print(
         f'Stationary amplitudes (ppm): {stat_amps}, after adjustment for TAR validity (ppm): {stat_amps_adjust}'
     )
     # display the threshold amplitudes
     _threshold_amp = stat_sol_info['critical parent amplitude'] * 1.0e6
-    _threshold_amp_adjust = _threshold_amp / adjust_ratio
+    _threshold_amp_adjust = _threshold_amp / np.abs(adjust_ratio)
     print(
         f'Parent threshold amplitude for parametric resonance (ppm): {_threshold_amp}, after adjustment for TAR validity (ppm): {_threshold_amp_adjust}'
     )
@@ -51,7 +51,7 @@ def print_surface_luminosities(
 ) -> None:
     # display the mode luminosity fluctuations at the surface
     _surface_fluxes = stat_sol_info['surface flux variations'] * 1.0e6
-    _surface_fluxes_adjust = _surface_fluxes / adjust_ratio
+    _surface_fluxes_adjust = _surface_fluxes / np.abs(adjust_ratio)
     print(
         f'Surface luminosity fluctuations (ppm): {_surface_fluxes}, after adjustment for TAR validity (ppm): {_surface_fluxes_adjust}'
     )
@@ -60,7 +60,7 @@ def print_surface_luminosities(
     _threshold_flux = (
         stat_sol_info['critical parent amplitude'] * _amp_to_flux[0] * 1.0e6
     )
-    _threshold_flux_adjust = _threshold_flux / adjust_ratio
+    _threshold_flux_adjust = _threshold_flux / np.abs(adjust_ratio)
     print(
         f'Parent threshold luminosity fluctuation for parametric resonance (ppm): {_threshold_flux}, after adjustment for TAR validity (ppm): {_threshold_flux_adjust}'
     )
-- 
2.43.0


From 4b11898d971fd8665478bb70800b1007ef254fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 65/73] fix: profile computations stop without an error for
 rejected mode triads

---
 aesolver/aesolver/solver/quadratic_profile.py | 3 +++
 aesolver/aesolver/solver/quadratic_solver.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/aesolver/aesolver/solver/quadratic_profile.py b/aesolver/aesolver/solver/quadratic_profile.py
index 6f1f877..133f559 100644
--- a/aesolver/aesolver/solver/quadratic_profile.py
+++ b/aesolver/aesolver/solver/quadratic_profile.py
@@ -324,6 +324,9 @@ class QuadraticAEProfileSolver(QuadraticAESolver):
         _ = self.compute_coupling_one_triad()
         # after loading the necessary information (e.g. the CC), compute the mode coupling coefficient profile
         self.compute_coupling_coefficient_profile()
+        # there is no profile to be shown if the mode triad is rejected
+        if self._coupler is None:
+            return
 
         # compute the masking information related to the validity of the TAR
         (
diff --git a/aesolver/aesolver/solver/quadratic_solver.py b/aesolver/aesolver/solver/quadratic_solver.py
index 9f498fa..e1801c6 100644
--- a/aesolver/aesolver/solver/quadratic_solver.py
+++ b/aesolver/aesolver/solver/quadratic_solver.py
@@ -1474,6 +1474,9 @@ class QuadraticAESolver:
         _ = self.compute_coupling_one_triad()
         # after loading the necessary information (e.g. the CC), compute the mode coupling coefficient profile
         self.compute_coupling_coefficient_profile()
+        # there is no profile to be shown if the mode triad is rejected
+        if self._coupler is None:
+            return
 
         # compute the masking information related to the validity of the TAR
         (
-- 
2.43.0


From bfcfd66923e314d3081ed6e08e0afeca4c325800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 66/73] fix: read the loaded dimensionless frequencies in the
 plotter

---
 aesolver/aeplotter/quadratic_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 9322b34..859096d 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -382,7 +382,7 @@ class QuadraticAEPlotter:
             # dimensionless frequency ratios
             try:
                 _dd['dimless_freq_ratio'] = (
-                    _dd['inert_dimless_mode_omegas'] / _dd['inert_mode_omegas']
+                    _dd['inert_dimless_mode_freqs'] / _dd['inert_mode_omegas']
                 )
             except KeyError:
                 logger.exception(
-- 
2.43.0


From c243852d876a832b2ae32092324f247935fac60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 67/73] fix: plot the resonance sharpness of a single triad

---
 aesolver/aeplotter/resonance_sharpness/histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/resonance_sharpness/histogram.py b/aesolver/aeplotter/resonance_sharpness/histogram.py
index a04b2d9..755dce1 100644
--- a/aesolver/aeplotter/resonance_sharpness/histogram.py
+++ b/aesolver/aeplotter/resonance_sharpness/histogram.py
@@ -91,7 +91,7 @@ def get_sharpness_histogram_plot_data(
         empirical_density=False,
     )
     # get the minimal number of bins (GUARD)
-    my_min_nr_bins = 1 if log_bin_width_all is None else len(log_bin_width_all)
+    my_min_nr_bins = 1 if log_bin_width_all is None else np.size(log_bin_width_all)
     # compute sharpness histogram for isolated triads
     log_hist_prob_isolated_all = histogram_blas_log_spec_edges(
         my_data=np.abs(resonance_sharpness_object.sharpness_isolated),
-- 
2.43.0


From 2536fa26cef017fedc662de2369281a42bf4fc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:06 +0000
Subject: [PATCH 68/73] fix: save solver results inside the requested
 sub-directory

---
 aesolver/aesolver/data_handling/storer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/data_handling/storer.py b/aesolver/aesolver/data_handling/storer.py
index 2b2eb94..256414e 100644
--- a/aesolver/aesolver/data_handling/storer.py
+++ b/aesolver/aesolver/data_handling/storer.py
@@ -4,6 +4,7 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import statements
 import logging
+import os
 from pathlib import Path
 from multimethod import multimethod
 
@@ -201,8 +202,8 @@ class NumericalSaver:
         # ensure the sub folder is generated
         Path(f'{_sub_directory_name}').mkdir(parents=True, exist_ok=True)
         # -- store full path/name of file
-        self._save_name = (
-            f'{_sub_directory_name}{save_name}.{self._save_suffix}'
+        self._save_name = os.path.join(
+            _sub_directory_name, f'{save_name}.{self._save_suffix}'
         )
 
     def _read_data_from_solver(self) -> None:
-- 
2.43.0


From 41b1376ea249ceb36c255c56a31b7fc552c2a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:18 +0000
Subject: [PATCH 69/73] fix: no sub-directory called None when none is
 requested

---
 .../aesolver/data_handling/enumeration_files/enum_generic.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/enumeration_files/enum_generic.py b/aesolver/aesolver/data_handling/enumeration_files/enum_generic.py
index 43e3e48..2c3694e 100644
--- a/aesolver/aesolver/data_handling/enumeration_files/enum_generic.py
+++ b/aesolver/aesolver/data_handling/enumeration_files/enum_generic.py
@@ -123,7 +123,7 @@ class SaveSubDirectory:
         """
         match self.sub_directory:
             case '' | None:
-                return self.sub_directory
+                return ''
             case str() as my_sub if my_sub[-1] == '/':
                 return f'{self.sub_directory[:-1]}'
             case str() as my_sub if my_sub[0] == '/':
-- 
2.43.0


From b9312b6377c81ab0506542c6665bd3e712654879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:29 +0000
Subject: [PATCH 70/73] fix: MESA profiles are read with their signs and
 leading digits beyond the first hundred zones

---
 aesolver/aesolver/model_handling/read_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/read_models.py b/aesolver/aesolver/model_handling/read_models.py
index 0ae9217..1ec61c1 100644
--- a/aesolver/aesolver/model_handling/read_models.py
+++ b/aesolver/aesolver/model_handling/read_models.py
@@ -5,6 +5,7 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 # import statements
 import logging
 import os
+import sys
 import h5py as h5
 import pandas as pd
 from functools import reduce, partial
@@ -140,7 +141,9 @@ class ModelReader:
         # initialize the data dictionary
         my_data = {}
         # open the MESA profile.dat file and read into a dataframe
-        _my_df = pd.read_fwf(file_path, skiprows=5)
+        # (infer the column widths from all rows: wider values, such as
+        # negative numbers, may only occur deep inside the star)
+        _my_df = pd.read_fwf(file_path, skiprows=5, infer_nrows=sys.maxsize)
         if TYPE_CHECKING:
             assert isinstance(_my_df, pd.DataFrame)
         # read the header information in a pandas series
-- 
2.43.0


From 477ef9a0a687c28901582b140780034fe81903a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:23 +0000
Subject: [PATCH 71/73] fix: Jacobian of three amplitude equations has the
 signs of its derivatives between amplitudes

---
 .../hyperbolicity/hyperbolicity_checker.py    | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py b/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
index 678efa8..88d6295 100644
--- a/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
+++ b/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
@@ -91,29 +91,29 @@ def jacobian_in_fp_real_four_ae_system(
     # fill up the jacobian elements
     jac[np.diag_indices(3)] = gammas  # (g1,g2,g3)
     jac[0, 1] = (
-        omegas[0] * sqrt12
-    )  # o1 * sqrt((-g1*g2)/(o1*o2)) = sqrt(-g1*o1*g2/o2)
+        -gammas[0] * sqrt23 / sqrt13
+    )  # -g1 * A1 / A2 = -g1 * sqrt(|g2*o1/(g1*o2)|)
     jac[0, 2] = (
-        omegas[0] * sqrt13
-    )  # o1 * sqrt((-g1*g3)/(o1*o3)) = sqrt(-g1*o1*g3/o3)
+        -gammas[0] * sqrt23 / sqrt12
+    )  # -g1 * A1 / A3 = -g1 * sqrt(|g3*o1/(g1*o3)|)
     jac[0, 3] = (
         qf * gammas[0] * sqrt23
     )  # (q*sqrt(1+q^2)/(2*eta))*(g1)*sqrt((g2*g3)/(o2*o3)) = (q*g1/(2*eta))*sqrt((1+q^2)*g2*g3/(o2*o3))
     jac[1, 0] = (
-        -omegas[1] * sqrt12
-    )  # -o2 * sqrt((-g1*g2)/(o1*o2)) = -sqrt(-g1*o2*g2/o1)
+        -gammas[1] * sqrt13 / sqrt23
+    )  # -g2 * A2 / A1 = -g2 * sqrt(|g1*o2/(g2*o1)|)
     jac[1, 2] = (
-        -omegas[1] * sqrt23
-    )  # -o2 * sqrt((g2*g3)/(o2*o3)) = -sqrt(g2*o3*g3/o2)
+        -gammas[1] * sqrt13 / sqrt12
+    )  # -g2 * A2 / A3 = -g2 * sqrt(|g3*o2/(g2*o3)|)
     jac[1, 3] = (
         qf * gammas[1] * sqrt13
     )  # (q*sqrt(1+q^2)/(2*eta))*(g2)*sqrt((-g1*g3)/(o1*o3)) = (q*g2/(2*eta))*sqrt((1+q^2)*(-g1*g3)/(o1*o3))
     jac[2, 0] = (
-        -omegas[2] * sqrt13
-    )  # -o3 * sqrt((-g1*g3)/(o1*o3)) = -sqrt(-g1*o3*g3/o1)
+        -gammas[2] * sqrt12 / sqrt23
+    )  # -g3 * A3 / A1 = -g3 * sqrt(|g1*o3/(g3*o1)|)
     jac[2, 1] = (
-        -omegas[2] * sqrt23
-    )  # -o3 * sqrt((g2*g3)/(o2*o3)) = -sqrt(g2*o3*g3/o2)
+        -gammas[2] * sqrt12 / sqrt13
+    )  # -g3 * A3 / A2 = -g3 * sqrt(|g2*o3/(g3*o2)|)
     jac[2, 3] = (
         qf * gammas[2] * sqrt12
     )  # (q*sqrt(1+q^2)/(2*eta))*(g3)*sqrt((-g1*g2)/(o1*o2)) = (q*g3/(2*eta))*sqrt((1+q^2)*(-g1*g2)/(o1*o2))
-- 
2.43.0


From dce82a754397869ac39c96ade1b88ef87c8e079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:23 +0000
Subject: [PATCH 72/73] fix: Jacobian of two amplitude equations keeps the
 coupling's share of its amplitude derivatives

---
 .../hyperbolicity/hyperbolicity_checker.py           | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py b/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
index 88d6295..168f0e0 100644
--- a/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
+++ b/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
@@ -175,14 +175,16 @@ def jacobian_in_fp_real_three_ae_system(
     qf = qsqrt / deta  # q*sqrt(1+q^2) / (2*eta)
     qsq_over_qf = q**2.0 / qf  # (2*eta*q) / sqrt(1+q^2)
     # fill up the jacobian elements
-    jac[np.diag_indices(2)] = gammas[:-1]  # (g1,g2)
-    jac[0, 1] = np.sqrt(-og[0] * inv_quality[1])  # sqrt(-g1*o1 * g2 / o2)
+    jac[0, 0] = gammas[0]  # g1 (and g2 - g2 = 0 for the second mode)
+    jac[0, 1] = (
+        -2.0 * gammas[0] * inv_quality[1] / sqrt12
+    )  # -2 * g1 * A1 / A2 = -2*g1 * (g2/o2) / sqrt(-2*g1*g2/(o1*o2))
     jac[0, 2] = (
         qf * gammas[0] * inv_quality[1]
     )  # (q*sqrt(1+q^2)/(2*eta))*(g1*g2/o2)
-    jac[1, 0] = -np.sqrt(
-        (-2.0 * inv_quality[0] * og[1])
-    )  # -sqrt((-2*g1*g2*o2)/(o1))
+    jac[1, 0] = (
+        -omegas[1] * sqrt12
+    )  # -g2 * A2 / A1 = -o2 * sqrt(-2*g1*g2/(o1*o2))
     jac[1, 2] = (
         gammas[1] * qf * sqrt12
     )  # g1 * (q*sqrt(1+q^2)/(2*eta)) * sqrt(-2*g1*g2/(o1*o2))
-- 
2.43.0


From b89f8eb32660701290c2e25420cb66444ab62073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:56 +0000
Subject: [PATCH 73/73] fix: bins of integer data do not have truncated edges

---
 histogram_maker/hogg_jacky/blas_jacky.py    | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 1430503..bc88d9d 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -353,7 +353,7 @@ def _bin_edges(my_data: D_arr, bin_nr: I_var) -> D_arr:
         my_data.max(),
         num=bin_nr + 1,
         endpoint=True,
-        dtype=my_data.dtype,
+        dtype=np.result_type(my_data, np.float32),
     )
 
 
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 0702f3f..8b27ce3 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -304,7 +304,7 @@ def _my_bin_edges(my_data: D_arr, bin_nr: I_var) -> D_arr:
         my_data.max(),
         num=bin_nr + 1,
         endpoint=True,
-        dtype=my_data.dtype,
+        dtype=np.result_type(my_data, np.float32),
     )
 
 
-- 
2.43.0

