From 5127a39c7f516ac717100fa772847f3d6fd0b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:49 +0000
Subject: [PATCH 01/27] fix: factor levels read from files are sorted and skip
 missing values

read_unique() returned the levels in set order, so the coding of a factor
(and its reference level) depended on the string hash seed and differed
from the coding of the same data kept in memory. Missing values made it
fail (factors) or turned the range of a covariate into NaN.
---
 src/mssm/src/python/file_loading.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index cfb8ae4..175d85e 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -22,7 +22,8 @@ def read_unique_single(x: str, file: str, file_loading_kwargs: dict) -> np.ndarr
     """
 
     dat = pd.read_csv(file, **file_loading_kwargs)
-    unq_dat = np.unique(dat[x].values)
+    x_f = dat[x]
+    unq_dat = np.unique(x_f[~pd.isnull(x_f)].values)
 
     return unq_dat
 
@@ -43,15 +44,13 @@ def read_unique(
     :return: numpy array holding unique values
     :rtype: np.ndarray
     """
-    unq = set()
     with mp.Pool(processes=nc) as pool:
         unq_cov = pool.starmap(
             read_unique_single, zip(repeat(x), files, repeat(file_loading_kwargs))
         )
 
-    unq.update(*unq_cov)
-
-    return np.array(list(unq))
+    # Sorted, so that factor codings match those obtained when data is kept in memory
+    return np.unique(np.concatenate(unq_cov))
 
 
 def read_cor_cov_single(
-- 
2.43.0


From b7b872e10c48bf285016716d26182efef3fd1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:49 +0000
Subject: [PATCH 02/27] fix: honour file_loading_kwargs when accumulating X.T@X
 and eta from files

The formula was set up with the user's read_csv arguments but the blocks of
the model matrix were read with pandas' defaults.
---
 src/mssm/src/python/gamm_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 20d31fa..636f84e 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3455,7 +3455,7 @@ def read_XTX(
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     y_flat_file, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(
@@ -3717,7 +3717,7 @@ def read_eta(file, formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     _, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
@@ -3959,7 +3959,7 @@ def solve_gamm_sparse2(
 
         for fi, file in enumerate(iterator):
             # Read file
-            file_dat = pd.read_csv(file)
+            file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
             # Encode data in this file
             y_flat_file, _, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
-- 
2.43.0


From f2656e351aa995022ba3264a564789f607c4b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:33 +0000
Subject: [PATCH 03/27] fix: drop the same incomplete rows when reading from
 files as in memory

Rows with a missing predictor were kept when computing identifiability
constraints from files and with keep_cov=True, and levels of a sub-group
were lost if the dependent variable was missing, so that models estimated
from files differed from models of the same data kept in memory.
---
 src/mssm/src/python/file_loading.py | 19 +++++-----
 src/mssm/src/python/formula.py      | 58 ++++++++++++++---------------
 2 files changed, 38 insertions(+), 39 deletions(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index 175d85e..1282f0a 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -54,12 +54,12 @@ def read_unique(
 
 
 def read_cor_cov_single(
-    y: str, x: str, file: str, file_loading_kwargs: dict
+    y: str | list[str], x: str, file: str, file_loading_kwargs: dict
 ) -> np.ndarray:
     """Read values of covariate ``x`` from ``file`` correcting for NaNs in ``y``.
 
-    :param y: name of covariate potentially having NaNs
-    :type y: str
+    :param y: name(s) of covariate(s) potentially having NaNs
+    :type y: str | list[str]
     :param x: covariate name
     :type x: str
     :param file: file name
@@ -71,16 +71,17 @@ def read_cor_cov_single(
     """
     dat = pd.read_csv(file, **file_loading_kwargs)
     x_f = dat[x].values
-    return x_f[np.isnan(dat[y]) == False]  # noqa: E712
+    y_f = dat[[y] if isinstance(y, str) else y]
+    return x_f[~y_f.isna().any(axis=1).values]
 
 
 def read_cov(
-    y: str, x: str, files: list[str], nc: int, file_loading_kwargs: dict
+    y: str | list[str], x: str, files: list[str], nc: int, file_loading_kwargs: dict
 ) -> np.ndarray:
     """Read values of covariate ``x`` from ``files`` correcting for NaNs in ``y``.
 
-    :param y: name of covariate potentially having NaNs
-    :type y: str
+    :param y: name(s) of covariate(s) potentially having NaNs
+    :type y: str | list[str]
     :param x: covariate name
     :type x: str
     :param files: list of file names
@@ -100,7 +101,7 @@ def read_cov(
         )
 
     # Flatten
-    cov = np.array([cv for cs in cov for cv in cs])
+    cov = np.concatenate(cov)
     return cov
 
 
@@ -144,7 +145,7 @@ def read_cov_no_cor(
         )
 
     # Flatten
-    cov = np.array([cv for cs in cov for cv in cs])
+    cov = np.concatenate(cov)
     return cov
 
 
diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 23f312d..18d4b7e 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -52,7 +52,7 @@ class lhs:
 def _compute_constraint_single_MP(
     sterm: f,
     vars: list[str],
-    lhs_var: str,
+    na_vars: list[str],
     file: str,
     var_mins: dict,
     var_maxs: dict,
@@ -71,8 +71,8 @@ def _compute_constraint_single_MP(
     :type sterm: f
     :param vars: List of variables
     :type vars: list[str]
-    :param lhs_var: name of dependent variable
-    :type lhs_var: str
+    :param na_vars: names of the variables of which none may be NaN in a row that is used
+    :type na_vars: list[str]
     :param file: file name
     :type file: str
     :param var_mins: Dictionary holding covariate minimums
@@ -103,7 +103,7 @@ def _compute_constraint_single_MP(
         if sterm.te is False:
             id_nk += 1
 
-        var_cov_flat = read_cor_cov_single(lhs_var, vars[vi], file, file_loading_kwargs)
+        var_cov_flat = read_cor_cov_single(na_vars, vars[vi], file, file_loading_kwargs)
 
         matrix_term_v = sterm.basis(
             var_cov_flat,
@@ -736,23 +736,20 @@ class Formula:
                             self.file_loading_kwargs,
                         )
                     else:
-                        rf_fac = read_cov(
-                            self.lhs.variable,
+                        rf_fac = read_cov_no_cor(
                             _org_var,
                             self.file_paths,
                             self.file_loading_nc,
                             self.file_loading_kwargs,
                         )
-                        # print(len(rf_fac))
-                        sub_fac = read_cov(
-                            self.lhs.variable,
+                        sub_fac = read_cov_no_cor(
                             by_subgroup[0],
                             self.file_paths,
                             self.file_loading_nc,
                             self.file_loading_kwargs,
                         )
-                        # print(len(rf_fac[sub_fac == by_subgroup[1]]))
-                        levels = np.unique(rf_fac[sub_fac == by_subgroup[1]])
+                        rf_fac = rf_fac[sub_fac == by_subgroup[1]]
+                        levels = np.unique(rf_fac[~pd.isnull(rf_fac)])
 
                 self.factor_codings[var] = {}
                 self.coding_factors[var] = {}
@@ -873,6 +870,20 @@ class Formula:
             self.n_coef += t_total_coef
             self.unpenalized_coef += t_unpenalized_coef
 
+    def __get_na_vars(self) -> list[str]:
+        """Names of the variables of which none may be NaN in rows used for estimation.
+
+        :return: Name of the dependent variable followed by those of all predictors.
+        :rtype: list[str]
+        """
+        return [
+            self.lhs.variable,
+            *[
+                c if c not in self.subgroup_variables else c.split(":")[0]
+                for c in self.var_to_cov.keys()
+            ],
+        ]
+
     def encode_data(self, data: pd.DataFrame, prediction: bool = False) -> tuple[
         np.ndarray | None,
         np.ndarray,
@@ -923,23 +934,7 @@ class Formula:
                 NAs_flat = ~np.isnan(y_flat)
             else:
                 NAs_flat = ~(
-                    data.loc[
-                        :,
-                        [
-                            self.lhs.variable,
-                            *[
-                                (
-                                    c
-                                    if c not in self.subgroup_variables
-                                    else c.split(":")[0]
-                                )
-                                for c in var_keys
-                            ],
-                        ],
-                    ]
-                    .isna()
-                    .any(axis=1)
-                    .values
+                    data.loc[:, self.__get_na_vars()].isna().any(axis=1).values
                 )
 
         if data is not None:
@@ -1022,6 +1017,9 @@ class Formula:
                         self.file_loading_nc,
                         self.file_loading_kwargs,
                     )
+
+                if not prediction:
+                    NAs_flat &= ~pd.isnull(c_raw)
             else:
                 if c in self.subgroup_variables:
                     c_raw = np.array(data[c.split(":")[0]])
@@ -1436,7 +1434,7 @@ class Formula:
                             id_nk = sterm.nk
 
                         var_cov_flat = read_cov(
-                            self.lhs.variable,
+                            self.__get_na_vars(),
                             vars[vi],
                             self.file_paths,
                             self.file_loading_nc,
@@ -1481,7 +1479,7 @@ class Formula:
                         zip(
                             repeat(sterm),
                             repeat(vars),
-                            repeat(self.lhs.variable),
+                            repeat(self.__get_na_vars()),
                             self.file_paths,
                             repeat(self.var_mins),
                             repeat(self.var_maxs),
-- 
2.43.0


From 96541ab13993f83f36465b8783f77dcec6666e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:53 +0000
Subject: [PATCH 04/27] fix: accept files without a single complete row

Estimating a model from files failed as soon as one of them had only rows
with missing values, although the same data can be used when kept in memory.
---
 src/mssm/src/python/formula.py      | 12 +++++++++---
 src/mssm/src/python/gamm_solvers.py | 12 ++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 18d4b7e..ccd43fe 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -57,7 +57,7 @@ def _compute_constraint_single_MP(
     var_mins: dict,
     var_maxs: dict,
     file_loading_kwargs: dict,
-) -> np.ndarray:
+) -> np.ndarray | None:
     """Internal function to compute QR identifiability constraint based on reading model matrix
     data from file
 
@@ -81,8 +81,8 @@ def _compute_constraint_single_MP(
     :type var_maxs: dict
     :param file_loading_kwargs: Any optional file loading key-word arguments.
     :type file_loading_kwargs: dict
-    :return: Constraint vector ``C``
-    :rtype: np.ndarray
+    :return: Constraint vector ``C`` or ``None`` if the file has no complete row
+    :rtype: np.ndarray | None
     """
 
     C = 0
@@ -105,6 +105,10 @@ def _compute_constraint_single_MP(
 
         var_cov_flat = read_cor_cov_single(na_vars, vars[vi], file, file_loading_kwargs)
 
+        # No complete row in this file
+        if len(var_cov_flat) == 0:
+            return None
+
         matrix_term_v = sterm.basis(
             var_cov_flat,
             None,
@@ -1487,6 +1491,8 @@ class Formula:
                         ),
                     )
 
+                C = [cf for cf in C if cf is not None]
+
                 if sterm.te or len(vars) == 1:
                     C = np.sum(np.array(C), axis=0)
                     Q, _ = scp.linalg.qr(C, pivoting=False, mode="full")
diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 636f84e..2c9288e 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3725,6 +3725,9 @@ def read_eta(file, formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
 
     # Parallelize over sub-sets of this file
     rows, _ = cov_flat_file.shape
+    if rows == 0:
+        return []
+
     cov_flat_files = np.array_split(cov_flat_file, min(nc, rows), axis=0)
     subsets = [i for i in range(len(cov_flat_files))]
 
@@ -3957,7 +3960,8 @@ def solve_gamm_sparse2(
         if progress_bar:
             iterator = tqdm(iterator, desc="Accumulating X.T @ X", leave=True)
 
-        for fi, file in enumerate(iterator):
+        XX = None
+        for file in iterator:
             # Read file
             file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
@@ -3965,12 +3969,16 @@ def solve_gamm_sparse2(
             y_flat_file, _, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
             y_flat.extend(y_flat_file[NAs_flat_file])
 
+            # No complete row in this file
+            if not np.any(NAs_flat_file):
+                continue
+
             # Build the model matrix products with all information from the formula - but only
             # for sub-set of rows in this file
             XX0, Xy0, rowsX0 = read_XTX(file, formula, n_c)
             rowsX += rowsX0
             # Compute X.T@X and X.T@y
-            if fi == 0:
+            if XX is None:
                 XX = XX0
                 Xy = Xy0
             else:
-- 
2.43.0


From 1b300334ae5280b9f559c42005c5d66e55d9399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:17 +0000
Subject: [PATCH 05/27] fix: take the type of a variable from a file that has
 values for it

A factor without a value in the first file was read as numeric variable.
---
 src/mssm/src/python/file_loading.py | 17 +++++++++++------
 src/mssm/src/python/formula.py      |  8 ++++----
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index 1282f0a..b964cf9 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -149,21 +149,26 @@ def read_cov_no_cor(
     return cov
 
 
-def read_dtype(column: str, file: str, file_loading_kwargs: dict) -> np.dtype:
-    """Read datatype of variable ``column`` in ``file``.
+def read_dtype(column: str, files: list[str], file_loading_kwargs: dict) -> np.dtype:
+    """Read datatype of variable ``column`` from the first of ``files`` that has a value for it.
 
     :param column: Name of covariate
     :type column: str
-    :param file: file name
-    :type file: str
+    :param files: list of file names
+    :type files: list[str]
     :param file_loading_kwargs: Any optional file loading key-word arguments.
     :type file_loading_kwargs: dict
     :return: Datatype (numpy) of ``colum``
     :rtype: np.dtype
     """
     dtype = None
-    dat = pd.read_csv(file, **file_loading_kwargs)
-    dtype = dat[column].dtype
+    for file in files:
+        dat = pd.read_csv(file, **file_loading_kwargs)
+        dtype = dat[column].dtype
+
+        # Columns without a single value are always read as numeric
+        if not dat[column].isna().all():
+            break
 
     return dtype
 
diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index ccd43fe..12147c1 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -446,7 +446,7 @@ class Formula:
                     vartype = data[var].dtype
                 else:
                     vartype = read_dtype(
-                        var, self.file_paths[0], self.file_loading_kwargs
+                        var, self.file_paths, self.file_loading_kwargs
                     )
 
                 # Store information for all variables once.
@@ -503,7 +503,7 @@ class Formula:
                         )
 
                     if len(self.file_paths) > 0 and read_dtype(
-                        t_by, self.file_paths[0], self.file_loading_kwargs
+                        t_by, self.file_paths, self.file_loading_kwargs
                     ) in ["float64", "int64"]:
                         raise KeyError(
                             (
@@ -543,7 +543,7 @@ class Formula:
 
                         if len(self.file_paths) > 0 and read_dtype(
                             t_by_subgroup[0],
-                            self.file_paths[0],
+                            self.file_paths,
                             self.file_loading_kwargs,
                         ) in ["float64", "int64"]:
                             raise KeyError(
@@ -586,7 +586,7 @@ class Formula:
                         vartype = data[t_by_cont].dtype
                     else:
                         vartype = read_dtype(
-                            t_by_cont, self.file_paths[0], self.file_loading_kwargs
+                            t_by_cont, self.file_paths, self.file_loading_kwargs
                         )
 
                     if vartype not in ["float64", "int64"]:
-- 
2.43.0


From 3c243cc840eb632fce3e982b018f1b936abf06ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:45 +0000
Subject: [PATCH 06/27] fix: keep cached model matrix blocks of equally named
 files apart

The cache was keyed by the name of a file without its directory, so that
with two files of the same name in different directories the blocks of the
first were used for both.
---
 src/mssm/src/python/gamm_solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 2c9288e..e09db31 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -34,6 +34,7 @@ from .custom_types import Fit_info, LambdaTerm, DerivOrder
 from .terms import GammTerm
 from .matrix_solvers import *  # noqa: F403
 from collections.abc import Callable
+import hashlib
 import os
 import math
 import sys
@@ -3294,7 +3295,9 @@ def read_mmat(
     :rtype: scp.sparse.csc_array
     """
 
-    target = file.split("/")[-1].split(".csv")[0] + f"_{fi}.npz"
+    # Files in different directories can have the same name
+    file_id = hashlib.sha256(file.encode()).hexdigest()[:16]
+    target = file.split("/")[-1].split(".csv")[0] + f"_{file_id}_{fi}.npz"
 
     if should_cache is False:
         mmat = build_sparse_matrix_from_formula(
-- 
2.43.0


From b44c28abbed74fd8d6329d8152642036b7427cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 07/27] fix: count all levels of a null-space penalty when
 solving column-wise

The last column was computed without the offset of the term, so that levels
were left out if enough coefficients precede the factor smooth.
---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4fa8b46..cbb700c 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -667,7 +667,7 @@ def compute_B(
 
             D_idx = np.arange(
                 lTerm.start_index + NULL_idx,
-                lTerm.S_J.shape[1] * (lTerm.rep_sj + 1),
+                lTerm.start_index + lTerm.S_J.shape[1] * lTerm.rep_sj,
                 lTerm.S_J.shape[1],
             )
 
-- 
2.43.0


From 983b2ccf83bbeb3ab8a3cead85586fc711d00532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:44 +0000
Subject: [PATCH 08/27] fix: build impulse response terms from entire series
 when building in parallel

---
 src/mssm/models.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 33f5a1e..3b0c185 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3195,6 +3195,27 @@ class GAMM(GAMMLSS):
                     cov,
                 )
 
+            elif len(irstx) > 0:
+                # Impulse response terms need entire series, so rows cannot be split. Instead,
+                # parallelize over series when building those terms.
+                with mp.Pool(processes=self.formulas[0].file_loading_nc) as pool:
+                    model_mat = build_sparse_matrix_from_formula(
+                        terms,
+                        has_intercept,
+                        ltx,
+                        irstx,
+                        stx,
+                        rtx,
+                        var_types,
+                        var_map,
+                        var_mins,
+                        var_maxs,
+                        factor_levels,
+                        cov_flat,
+                        cov,
+                        pool,
+                    )
+
             else:
                 # Build row sets of model matrix in parallel:
 
-- 
2.43.0


From ed4a13a7393a9fc138497f41eb223da8647af7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:46 +0000
Subject: [PATCH 09/27] fix: allow more processes than rows when building the
 model matrix

---
 src/mssm/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 3b0c185..640e4cb 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3217,10 +3217,12 @@ class GAMM(GAMMLSS):
                     )
 
             else:
-                # Build row sets of model matrix in parallel:
+                # Build row sets of model matrix in parallel (never less than one row per set):
 
                 cov_split = np.array_split(
-                    cov_flat, self.formulas[0].file_loading_nc, axis=0
+                    cov_flat,
+                    min(self.formulas[0].file_loading_nc, cov_flat.shape[0]),
+                    axis=0,
                 )
                 with mp.Pool(processes=self.formulas[0].file_loading_nc) as pool:
                     # Build the model matrix with all information from the formula
-- 
2.43.0


From b6b53c778547f85087aa4b17c646c044dc5bdbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:39 +0000
Subject: [PATCH 10/27] fix: compute_Tpi no longer overwrites series-specific T
 and pi in a single process

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 23ac6f7..e7d24a6 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1589,7 +1589,7 @@ class HSMMFamily(GSMMFamily):
             ps = []
 
             for series in range(n_series):
-                T, pi = series_Tpi(
+                Ts, pis = series_Tpi(
                     series,
                     [
                         y_split[series] if y_split is not None else None
@@ -1601,7 +1601,7 @@ class HSMMFamily(GSMMFamily):
                     ],
                 )
 
-                ps.append([T, pi])
+                ps.append([Ts, pis])
 
         else:  # Compute in parallel
 
-- 
2.43.0


From 871f7f705e3c7acba50356730647d7a13fa47509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:23 +0000
Subject: [PATCH 11/27] fix: duration residuals use the T and pi of their
 series and whiten it once

---
 src/mssm/src/python/hsmm.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index e7d24a6..7102aa3 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import scipy as scp
 from mssm.src.python.gamm_solvers import deriv_transform_mu_eta, cpp_backsolve_tr
@@ -2605,6 +2606,20 @@ class HSMMFamily(GSMMFamily):
             else:
                 hmp_code = 0
 
+            # Duration residuals rely on methods that are called for this series only. They need
+            # the T & pi of this series and must not whiten the (already whitened) series again:
+            # only rho, recovered from the leading block of Lrhoi, is still required.
+            if resid_type in ["viterbi_dur", "posterior_dur"]:
+                series_fam = copy.copy(self)
+                series_fam.llkargs = list(self.llkargs)
+
+                if fix_T_pi:
+                    series_fam.llkargs[14] = Ts
+                    series_fam.llkargs[15] = pis
+
+                if Lrhoi is not None:
+                    series_fam.llkargs[16] = Lrhoi[:2, :2]
+
             # Now compute residual vector #
             if resid_type == "forward":
                 res = hsmm.forward_resid(
@@ -2654,7 +2669,7 @@ class HSMMFamily(GSMMFamily):
             elif resid_type == "viterbi_dur":
 
                 # Decode viterbi path
-                viterbi = self.decode_viterbi(
+                viterbi = series_fam.decode_viterbi(
                     coef,
                     coef_split_idx,
                     ys,
@@ -2681,7 +2696,7 @@ class HSMMFamily(GSMMFamily):
                 res = res.reshape(1, -1)
 
             elif resid_type == "posterior_dur":
-                state_samples = self.sample_posterior_states(
+                state_samples = series_fam.sample_posterior_states(
                     coef,
                     coef_split_idx,
                     ys,
-- 
2.43.0


From 3970c5e7e4b46016b886ed7abd3a859edaff2665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:23 +0000
Subject: [PATCH 12/27] fix: predictive residuals no longer read outside of the
 array of means for the first state

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 162576c..6772b8c 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -476,7 +476,7 @@ py::array_t<
                                                  ds(d,(starts_with_first) ? j : j + n_S,t):
                                                  ds(d,(starts_with_first) ? j : j + n_S));
                             }
-                            else if (rho < 999)
+                            else if (rho < 999 && j > 0)
                             {
                                 // Lag of previous bump carries over
                                 ebump = d1 * weights(event_width-1) * mus(t-1,m,j-1);
-- 
2.43.0


From d4f47043f6a9abc2ac42e91501a96b0f1a838ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:42 +0000
Subject: [PATCH 13/27] fix: expected edf no longer depend on the number of
 cores in correct_VB

---
 src/mssm/src/python/utils.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index cf64053..f85fd46 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4151,6 +4151,12 @@ def correct_VB(
 
                     if only_expected_edf is False:
                         Linvs.extend(list(sample_Linvs))
+                    else:
+                        # Trace for tau2, see :func:`compute_reml_candidate_GAMM`
+                        sample_edfs = [
+                            edf * scale / orig_scale
+                            for edf, scale in zip(sample_edfs, sample_scales)
+                        ]
                     scales.extend(list(sample_scales))
                     coefs.extend(list(sample_coefs))
                     remls.extend(list(sample_remls))
@@ -4277,6 +4283,13 @@ def correct_VB(
                     axis=0,
                 )
 
+            origNH = None
+            if only_expected_edf:
+                if isinstance(family, Gaussian) and isinstance(family.link, Identity):
+                    origNH = orig_scale
+                else:
+                    origNH = -1 * model.hessian
+
             for ps in p_sample:
                 for ridx, rc in enumerate(ps):
                     rPen[ridx].lam = rc
@@ -4292,6 +4305,7 @@ def correct_VB(
                             model.offset,
                             method=method,
                             compute_inv=True,
+                            origNH=origNH,
                         )
                     )
                     # coef = coef.reshape(-1,1)
@@ -4316,6 +4330,7 @@ def correct_VB(
                             n_c=n_c,
                             method=method,
                             bfgs_options=bfgs_options,
+                            origNH=origNH,
                             keep_drop=keep_drop,
                         )
                     except:  # noqa: E722
-- 
2.43.0


From fbfd381913cfb0769bf9d3cc4159c6d89d2de000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:20 +0000
Subject: [PATCH 14/27] fix: numerical Hessians of hidden semi-Markov families
 using several cores no longer start processes from worker processes

---
 src/mssm/src/python/hsmm.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 7102aa3..20373c0 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -3094,6 +3094,26 @@ class HSMMFamily(GSMMFamily):
 
         return llk
 
+    def jhessian(
+        self,
+        jcols: np.ndarray,
+        coef: np.ndarray,
+        coef_split_idx: list[int],
+        ys: list[np.ndarray],
+        Xs: list[scp.sparse.csc_array | None],
+        n_c: int = 1,
+    ) -> scp.sparse.csc_array:
+        """Like :func:`GSMMFamily.jhessian`, but only parallelizes over the columns of the Hessian
+        if this family does not parallelize over series already: the worker processes computing
+        the columns are not allowed to start worker processes of their own.
+
+        See :func:`GSMMFamily.jhessian` for details on parameters and the returned matrix.
+        """
+        if self.llkargs[10] > 1:
+            n_c = 1
+
+        return super().jhessian(jcols, coef, coef_split_idx, ys, Xs, n_c=n_c)
+
     def gradient(
         self,
         coef: np.ndarray,
-- 
2.43.0


From 6e0e49cb4227b09ab3777d3fdc76e8b4b3902cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:00 +0000
Subject: [PATCH 15/27] fix: PropHaz survival and baseline hazard estimates
 belong to the coefficients and data they are requested for

They were computed once per family instance and then returned for any later
arguments, also after the model had been fitted again.
---
 src/mssm/src/python/exp_fam.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index eca423d..ddc5545 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4016,6 +4016,7 @@ class PropHaz(GSMMFamily):
         self.__hs = None
         self.__qs = None
         self.__avs = None
+        self.__pred_for = None  # Arguments for which the previous three were computed
 
         # Create index vectors ri for ut and r
         idx = np.arange(len(self.r), dtype=np.int64)
@@ -4322,9 +4323,36 @@ class PropHaz(GSMMFamily):
             qs[j] = qs[j + 1] + djs[j] / np.power(gamma_ps[j], 2)
             avs[j] = avs[j + 1] + b_ps[j] * djs[j] / np.power(gamma_ps[j], 2)
 
+        self.__pred_for = None
         self.__hs = hs
         self.__qs = qs
         self.__avs = avs
+        self.__pred_for = (np.array(coef), np.array(delta), X)
+
+    def __predictions_ready_for(
+        self, coef: np.ndarray, delta: np.ndarray, Xs: list[scp.sparse.csc_array]
+    ) -> bool:
+        """Checks whether the quantities computed by ``__prepare_predictions`` are available for
+        the given arguments.
+
+        :param coef: Coefficient vector as numpy array of shape (-1,1).
+        :type coef: np.ndarray
+        :param delta: Dependent variable passed to :func:`mssm.src.python.formula.Formula`
+        :type delta: np.ndarray
+        :param Xs: The list of model matrices (here holding a single model matrix).
+        :type Xs: [scp.sparse.csc_array]
+        :return: True if the quantities stored for this family match the arguments
+        :rtype: bool
+        """
+        if self.__pred_for is None:
+            return False
+
+        coef2, delta2, X2 = self.__pred_for
+        if not np.array_equal(coef, coef2) or not np.array_equal(delta, delta2):
+            return False
+
+        X = Xs[0]
+        return X is X2 or (X.shape == X2.shape and abs(X - X2).max() == 0)
 
     def get_baseline_hazard(
         self, coef: np.ndarray, delta: np.ndarray, Xs: list[scp.sparse.csc_array]
@@ -4390,7 +4418,7 @@ class PropHaz(GSMMFamily):
         :rtype: np.ndarray
         """
 
-        if self.__hs is None:
+        if not self.__predictions_ready_for(coef, delta, Xs):
             self.__prepare_predictions(coef, delta, Xs)
 
         return self.__hs
@@ -4528,7 +4556,7 @@ class PropHaz(GSMMFamily):
         :rtype: tuple[np.ndarray, np.ndarray | None]
         """
 
-        if self.__hs is None:
+        if not self.__predictions_ready_for(coef, delta, Xs):
             self.__prepare_predictions(coef, delta, Xs)
 
         # Extract and define all variables defined by WPS (2016)
-- 
2.43.0


From ea423ee23b48c1f7e9b0fdd9e34e2504755a7b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:15 +0000
Subject: [PATCH 16/27] fix: clusters of factor smooths are no longer written
 into the user's approx_deriv dictionary

A dictionary used for more than one term ended up holding the clusters of the
last of them, which were then used for the penalties of all of them.
---
 src/mssm/src/python/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 12147c1..c452374 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -426,7 +426,7 @@ class Formula:
 
             if isinstance(term, fs):
                 if term.approx_deriv is not None:
-                    self.discretize[ti] = term.approx_deriv
+                    self.discretize[ti] = copy.deepcopy(term.approx_deriv)
 
                     # Make sure all categorical split variables end up being encoded since
                     # they do not necessarily have to be in the formula in case of
-- 
2.43.0


From 2f4dc3e8ce5abe077e83a733b78094aaaefff481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:25 +0000
Subject: [PATCH 17/27] fix: options for sampling Hessians are completed on a
 copy of the user's dictionary

The number of samples that suits the first model was otherwise used for every
model fitted with the same dictionary afterwards.
---
 src/mssm/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 640e4cb..461cd01 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -1153,6 +1153,9 @@ class GSMM:
                         len(coef), format="csc"
                     )
 
+            # Options are completed below and while fitting - so work on a copy
+            sample_hessian_options = dict(sample_hessian_options)
+
             if "n_samples" not in sample_hessian_options:
                 sample_hessian_options["n_samples"] = N_u
 
-- 
2.43.0


From 7338715a747247e73076613e93fed298989a1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:07 +0000
Subject: [PATCH 18/27] fix: interrupts are no longer swallowed, and leave the
 family of a corrected model as it was

Bare except clauses treated KeyboardInterrupt like a numerical problem, so that
an interrupted fit or correction carried on with a different result.
---
 src/mssm/src/python/gamm_solvers.py   |  6 ++--
 src/mssm/src/python/matrix_solvers.py |  4 +--
 src/mssm/src/python/utils.py          | 41 ++++++++++-----------------
 3 files changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index e09db31..652ae55 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -4880,7 +4880,7 @@ def identify_drop(
                 which="SM",
                 maxiter=10000,
             )
-        except:  # noqa: E722
+        except Exception:
             try:
                 _, _, vh = scp.sparse.linalg.svds(
                     R,
@@ -4891,7 +4891,7 @@ def identify_drop(
                     solver="lobpcg",
                     maxiter=10000,
                 )
-            except:  # noqa: E722
+            except Exception:
                 # Solver failed.. get out and try again later.
                 drop = np.sort(drop)
                 keep = np.sort(keep)
@@ -6760,7 +6760,7 @@ def test_SR1(
         _, _, _ = computeHSR1(
             sks, yks, rhos, H0, omega=omega, make_psd=False, explicit=False
         )
-    except:  # noqa: E722
+    except Exception:
         Fail = True
 
     # Undo conditional assignment
diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index cbb700c..26ca9f1 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -480,7 +480,7 @@ def est_condition(
         max_sing = scp.sparse.linalg.svds(
             L, k=1, return_singular_vectors=False, random_state=seed
         )[0]
-    except:  # noqa: E722
+    except Exception:
         try:
             min_sing = scp.sparse.linalg.svds(
                 Linv,
@@ -496,7 +496,7 @@ def est_condition(
                 random_state=seed,
                 solver="lobpcg",
             )[0]
-        except:  # noqa: E722
+        except Exception:
             # Solver failed.. get out
             warnings.warn(
                 (
diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index f85fd46..af53903 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1874,10 +1874,6 @@ def compute_reml_candidate_GAMM(
         # Now compute REML for candidate
         reml = REML(llk, nH / scale, coef, scale, penalties, keep)
 
-        # Optionally reset theta parameters
-        if isinstance(family, ExtendedFamily) and family.est_theta:
-            family.theta = prev_theta
-
         Linv = None
         if compute_inv or origNH is not None:
             LPinv = compute_Linv(LP, n_c)
@@ -1901,12 +1897,7 @@ def compute_reml_candidate_GAMM(
             else:
                 edf = (Linv @ origNH @ Linv.T).trace() * scale
 
-    except:  # noqa: E722
-
-        # Make sure to still reset theta parameters
-        if isinstance(family, ExtendedFamily) and family.est_theta:
-            family.theta = prev_theta
-
+    except Exception:
         return (
             -np.inf,
             scp.sparse.csc_matrix((len(coef), len(coef))),
@@ -1918,6 +1909,11 @@ def compute_reml_candidate_GAMM(
             -np.inf,
         )
 
+    finally:
+        # Always reset theta parameters, also if interrupted
+        if isinstance(family, ExtendedFamily) and family.est_theta:
+            family.theta = prev_theta
+
     return reml, Linv, LP, Pr, coef.reshape(-1, 1), scale, edf, llk
 
 
@@ -2136,7 +2132,7 @@ def compute_REML_candidate_GSMM(
             # Compute trace for tau2
             total_edf = (LV @ origNH @ LV.T).trace()
 
-    except:  # noqa: E722
+    except Exception:
         return (
             -np.inf,
             scp.sparse.csc_matrix((len(coef), len(coef))),
@@ -2866,7 +2862,7 @@ def estimateVp(
                         bfgs_options=bfgs_options,
                         keep_drop=keep_drop,
                     )
-                except:  # noqa: E722
+                except Exception:
                     warnings.warn(
                         f"Unable to compute REML score for sample {ps}. Skipping."
                     )
@@ -4333,7 +4329,7 @@ def correct_VB(
                             origNH=origNH,
                             keep_drop=keep_drop,
                         )
-                    except:  # noqa: E722
+                    except Exception:
                         warnings.warn(
                             f"Unable to compute REML score for sample {ps}. Skipping."
                         )
@@ -4398,11 +4394,6 @@ def correct_VB(
                 z = None
                 Wr = None
 
-                # Keep track of theta
-                prev_theta = None
-                if isinstance(family, ExtendedFamily) and family.est_theta:
-                    prev_theta = copy.deepcopy(family.theta)
-
                 S_emb, _, S_root, _ = compute_S_emb_pinv_det(
                     X.shape[1], model.overall_penalties, "svd", method != "Chol"
                 )
@@ -4418,14 +4409,16 @@ def correct_VB(
 
                     mu = family.link.fi(eta)
 
-                    # Optionally update theta parameter for extended family models
+                    # Optionally update theta parameter for extended family models - use a
+                    # copy so that the family of the model is never altered
+                    mean_family = family
                     if isinstance(family, ExtendedFamily) and family.est_theta:
-                        ntheta = updateTheta(mu, y, family)
-                        family.theta = ntheta
+                        mean_family = copy.deepcopy(family)
+                        mean_family.theta = updateTheta(mu, y, mean_family)
 
                     # Compute pseudo-dat and weights for mean coef
                     yb, Xb, z, Wr = update_PIRLS(
-                        y, yb, mu, eta - model.offset, X, Xb, family, None
+                        y, yb, mu, eta - model.offset, X, Xb, mean_family, None
                     )
 
                     inval = np.isnan(z)
@@ -4446,10 +4439,6 @@ def correct_VB(
                     W = Wr_fix @ Wr_fix
                     nH = (X.T @ W @ X).tocsc()
 
-                    # Can reset theta now:
-                    if isinstance(family, ExtendedFamily) and family.est_theta:
-                        family.theta = prev_theta
-
                 # Solve for coef to get Cholesky needed to re-compute scale
                 _, _, _, Pr, _, LP, keep, drop = update_coef(
                     yb, X, Xb, family, S_emb, S_root, n_c, None, model.offset
-- 
2.43.0


From d917c18b24bb6e2d65745df14a28afb30b9019ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:50 +0000
Subject: [PATCH 19/27] fix: formulas no longer share terms with each other

Constraints and re-parameterizations were written into the terms passed by the
user, so setting up a second formula with the same terms, but other data,
changed the predictions of models of the first one.
---
 src/mssm/src/python/formula.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index c452374..7c80988 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -282,7 +282,7 @@ class Formula:
     :type file_loading_kwargs: dict,optional
     :ivar lhs lhs: The left-hand side object of the regression formula passed to the constructor.
         Initialized at construction.
-    :ivar [GammTerm] terms: The list of terms passed to the constructor. Initialized at
+    :ivar [GammTerm] terms: Copies of the terms passed to the constructor. Initialized at
         construction.
     :ivar pd.DataFrame data: The dataframe passed to the constructor. Initialized at
         construction.
@@ -329,7 +329,8 @@ class Formula:
     ) -> None:
 
         self.lhs = lhs
-        self.terms = terms
+        # Terms are set up for this formula (constraints etc.), so need their own copies
+        self.terms = copy.deepcopy(terms)
         self.data = data
         self.series_id = series_id
         self.print_warn = print_warn
-- 
2.43.0


From 314adb3838b2f9eaf8c3e2dedbdae25de99c5117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:44 +0000
Subject: [PATCH 20/27] fix: quasi-Newton steps to coefficients with undefined
 log-likelihood are refused

---
 src/mssm/src/python/gamm_solvers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 652ae55..80e2e7b 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -8001,6 +8001,11 @@ def update_coef_gen_smooth(
         def __neg_llk(coef, coef_split_idx, ys, Xs, family, S_emb):
             coef = coef.reshape(-1, 1)
             neg_llk = -1 * family.llk(coef, coef_split_idx, ys, Xs)
+
+            # The line-search would accept a step to coefficients for which the llk is undefined
+            if np.isnan(neg_llk):
+                neg_llk = np.inf
+
             return neg_llk + 0.5 * coef.T @ S_emb @ coef
 
         def __neg_grad(coef, coef_split_idx, ys, Xs, family, S_emb):
-- 
2.43.0


From 65d3049181725c6e606ef54de9d9dd1e63cdd84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:05 +0000
Subject: [PATCH 21/27] fix: fits from files with approximated derivatives
 return the inverse factor fits from memory return

---
 src/mssm/src/python/gamm_solvers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 80e2e7b..afa3cc1 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -4218,6 +4218,12 @@ def solve_gamm_sparse2(
     if term_edfs is not None:
         term_edfs = calculate_term_edf(penalties, term_edfs)
 
+    # Inverse is not formed during fitting when derivatives are approximated
+    if InvCholXXS is None:
+        Lp, Pr, _ = cpp_cholP((XX + S_emb).tocsc())  # noqa: F405
+        InvCholXXSP = compute_Linv(Lp, n_c)  # noqa: F405
+        InvCholXXS = apply_eigen_perm(Pr, InvCholXXSP)  # noqa: F405
+
     clear_cache(CACHE_DIR, SHOULD_CACHE)
 
     return (
-- 
2.43.0


From 6b860de0cdcebfe76d0cb4baf56fd99a9a4a9b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:03 +0000
Subject: [PATCH 22/27] fix: corrections of Gaussian models with an offset use
 the offset in one process

The serial computation of a REML candidate subtracted the offset from the
response, but then left it out of the linear predictor, so that the scale (and
thus the corrected covariance and edf) of models with an offset was wrong and
differed from the one computed by several processes.
---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index af53903..d142684 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1714,7 +1714,7 @@ def compute_reml_candidate_GAMM(
         if isinstance(family, Gaussian) and isinstance(family.link, Identity):
             # AMM - directly solve for coef
             eta, mu, coef, Pr, _, LP, keep, drop = update_coef(
-                y - offset, X, X, family, S_emb, S_root, n_c, None, 0
+                y - offset, X, X, family, S_emb, S_root, n_c, None, offset
             )
             nH = (X.T @ X).tocsc()
         else:
-- 
2.43.0


From 44b3d8b685ab274e8fed6c960ac0a25eeb630067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:14 +0000
Subject: [PATCH 23/27] fix: candidates that fail in a worker process are
 skipped as in one process

estimateVp and correct_VB skip smoothing parameter candidates for which a
GAMMLSS or GSMM cannot be estimated, but raised as soon as one of them failed in
a worker process.
---
 src/mssm/src/python/utils.py | 70 +++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index d142684..f0a91bc 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -2145,6 +2145,38 @@ def compute_REML_candidate_GSMM(
     return reml, V, LV, coef.reshape(-1, 1), total_edf, c_llk
 
 
+def _try_REML_candidate_GSMM(*args) -> tuple | None:
+    """Calls :func:`compute_REML_candidate_GSMM` in a worker process, returning None if the
+    computation fails for the candidate - so that the remaining candidates can still be used.
+
+    Internal function.
+    """
+    try:
+        return compute_REML_candidate_GSMM(*args)
+    except Exception:
+        return None
+
+
+def _keep_REML_candidates(samples: list[tuple | None], p_sample: np.ndarray):
+    """Skips candidates for which computations failed in a worker process.
+
+    Internal function.
+
+    :param samples: Results (or None) of :func:`_try_REML_candidate_GSMM`, one per candidate.
+    :type samples: list[tuple | None]
+    :param p_sample: Candidates, one per row.
+    :type p_sample: np.ndarray
+    :return: Remaining results and candidates
+    :rtype: tuple[list[tuple],np.ndarray]
+    """
+    for ps, sample in zip(p_sample, samples):
+        if sample is None:
+            warnings.warn(f"Unable to compute REML score for sample {ps}. Skipping.")
+
+    keep = [sample is not None for sample in samples]
+    return [sample for sample in samples if sample is not None], p_sample[keep]
+
+
 def REML(
     llk: float,
     nH: scp.sparse.csc_array,
@@ -2783,14 +2815,17 @@ def estimateVp(
                     repeat(keep_drop),
                 )
                 with mp.Pool(processes=n_c) as pool:
-                    (
-                        sample_remls,
-                        _,
-                        sample_Linvs,
-                        sample_coefs,
-                        sample_edfs,
-                        sample_llks,
-                    ) = zip(*pool.starmap(compute_REML_candidate_GSMM, args))
+                    samples = pool.starmap(_try_REML_candidate_GSMM, args)
+
+                samples, p_sample = _keep_REML_candidates(samples, p_sample)
+                (
+                    sample_remls,
+                    _,
+                    sample_Linvs,
+                    sample_coefs,
+                    sample_edfs,
+                    sample_llks,
+                ) = zip(*samples)
                 # sample_scales = np.ones(p_sample.shape[0])
 
             remls.extend(list(sample_remls))
@@ -4220,14 +4255,17 @@ def correct_VB(
                         repeat(keep_drop),
                     )
                     with mp.Pool(processes=n_c) as pool:
-                        (
-                            sample_remls,
-                            _,
-                            sample_Linvs,
-                            sample_coefs,
-                            sample_edfs,
-                            sample_llks,
-                        ) = zip(*pool.starmap(compute_REML_candidate_GSMM, args))
+                        samples = pool.starmap(_try_REML_candidate_GSMM, args)
+
+                    samples, p_sample = _keep_REML_candidates(samples, p_sample)
+                    (
+                        sample_remls,
+                        _,
+                        sample_Linvs,
+                        sample_coefs,
+                        sample_edfs,
+                        sample_llks,
+                    ) = zip(*samples)
                     sample_scales = np.ones(p_sample.shape[0])
 
                 if only_expected_edf is False:
-- 
2.43.0


From ca9fbba06071d5afa9241fa9b426049899f66ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:14 +0000
Subject: [PATCH 24/27] fix: states of impossible series are no longer sampled
 from undefined probabilities

With probability zero for an observation all posterior probabilities were NaN, so
that sampled states were arbitrary, and durations could be read beyond the end of
the duration probabilities.
---
 src/mssm/src/cpp/hsmm/decode.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index d602a2c..bc045b1 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -417,6 +417,12 @@ std::tuple<
             }
         }
 
+        // There is no posterior to sample from if the observations are impossible
+        if (!(Lam(t) > 0.0))
+        {
+            throw py::value_error("Observed series has probability zero under the model.");
+        }
+
         // Now need an additional scaling pass over d and j
         for (size_t d = 0; d < (D-1); d++)
         {
-- 
2.43.0


From c1279a1532d23f59140a4e768625297ad75bc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:19 +0000
Subject: [PATCH 25/27] fix: a refit without rho or transform_X no longer keeps
 those of an earlier fit

The correlation parameter, ar1 residuals, model matrix transformation and
observed Hessian of an earlier fit of the same model were kept, so that the
log-likelihood, REML score, residuals, and model matrix of the refitted model
were wrong.
---
 src/mssm/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 461cd01..c61b4a6 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3259,14 +3259,15 @@ class GAMM(GAMMLSS):
 
             # Optionally set up ar1 model
             Lrhoi = None
+            self.rho = rho
+            self.res_ar = None
             if rho is not None:
-                self.rho = rho
                 Lrhoi, _ = computeAr1Chol(self.formulas[0], rho)
 
             # Apply any optional transformation of the model matrix.
+            self.transform_X = transform_X
             if transform_X is not None:
                 model_mat = transform_X(model_mat)
-                self.transform_X = transform_X
 
             # Now we have to estimate the model
             coef, eta, wres, Wr, WN, scale, LVI, edf, term_edf, penalty, fit_info = (
@@ -3305,6 +3306,7 @@ class GAMM(GAMMLSS):
                     model_mat[:, fit_info.dropped] = 0
 
             # Compute (expected) Hessian of llk (Wood, 2011)
+            self.hessian_obs = None
             if (
                 isinstance(self.family, Gaussian) is False
                 or isinstance(self.family.link, Identity) is False
-- 
2.43.0


From c19c184d93ac9e39f1c517782c8e5c95f3a06483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:24 +0000
Subject: [PATCH 26/27] fix: a fit no longer changes the extra penalties of the
 user

---
 src/mssm/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index c61b4a6..8319114 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import scipy as scp
 from collections.abc import Callable
@@ -1009,8 +1010,9 @@ class GSMM:
 
             # Collect any extra penalties
             if extra_penalties is not None:
+                # Work on copies, since lambda values are updated while fitting
                 for pen in extra_penalties:
-                    smooth_pen.append(pen)
+                    smooth_pen.append(copy.deepcopy(pen))
 
                 # Re-order penalties, taking into account extra ones
                 smooth_pen = sort_penalties(smooth_pen)
-- 
2.43.0


From 52484bf57e527567352cdbcf3ef35985ebee953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:24 +0000
Subject: [PATCH 27/27] fix: a refit with build_mat no longer keeps the
 predictions of an earlier fit

---
 src/mssm/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 8319114..662c2c9 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -1225,6 +1225,8 @@ class GSMM:
         self.info = fit_info
 
         # Assign predictions and parameter estimates
+        self.preds = None
+        self.mus = None
         if build_mat is None:
             split_coef = np.split(coef, coef_split_idx)
             self.preds = [X @ spcoef for X, spcoef in zip(Xs, split_coef)]
-- 
2.43.0

