From 9ebe0bf587bc3fc5f3b2487075b16f80cebd2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:29 +0000
Subject: [PATCH 01/23] fix: use the requested gran_logic in the second pass of
 solve_emf

The Gran guesses reported with the final result were always those of the
default rule when solving twice.
---
 calkulate/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index 355085f..ad9c09f 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -706,6 +706,7 @@ def solve_emf(
             alkalinity_init=sr.alkalinity,
             double=False,  # if True this becomes an infinite loop, so don't
             emf0_init=sr.emf0,
+            gran_logic=gran_logic,
             pH_min=pH_min,
             pH_max=pH_max,
             titrant_normality=titrant_normality,
-- 
2.43.0


From 714fda5dd08df1be86dafb010c363d5493492732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:54 +0000
Subject: [PATCH 02/23] fix: let calibrate_emf use gran_logic like solve_emf
 does

Calibrating and solving with gran_logic="legacy" used different Gran rules
because calibrate_emf neither accepted nor forwarded it.
---
 calkulate/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index ad9c09f..14770c8 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -879,6 +879,7 @@ def _lsqfun_calibrate_emf(
     pH_min,
     pH_max,
     titrant_normality,
+    gran_logic,
     **titrant_totals,
 ):
     """Calculate residuals for the calibrator."""
@@ -903,6 +904,7 @@ def _lsqfun_calibrate_emf(
         alkalinity_init=alkalinity_init,
         double=double,
         emf0_init=emf0_init,
+        gran_logic=gran_logic,
         pH_min=pH_min,
         pH_max=pH_max,
         titrant_normality=titrant_normality,
@@ -934,6 +936,7 @@ def calibrate_emf(
     pH_max=4,
     titrant_molinity_init=0.1,
     titrant_normality=1,
+    gran_logic="v23.7+",
     **titrant_totals,
 ):
     """Solve for `titrant_molinity` given `alkalinity_certified`.
@@ -977,6 +980,9 @@ def calibrate_emf(
         0.1.
     titrant_normality : float, optional
         Titrant normality, by default 1 (e.g., for HCl).
+    gran_logic : str, optional
+        Which rule selects the points for the Gran-plot first guesses, by
+        default "v23.7+" (see `gran_alkalinity`).
 
     Returns
     -------
@@ -1001,6 +1007,7 @@ def calibrate_emf(
             pH_min,
             pH_max,
             titrant_normality,
+            gran_logic,
         ),
         kwargs=titrant_totals,
         **kwargs_least_squares,
-- 
2.43.0


From 3048f5895905babd23fc90ddfeb0b8f1148a5955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:46 +0000
Subject: [PATCH 03/23] fix: Titration str and repr for rows without a
 file_path

---
 calkulate/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 8ac59d5..610aac5 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -224,14 +224,14 @@ class Titration:
         if "file_path" in self.row:
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
         if "file_path" in self.row:
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def get_alkalinity_from_acid(self):
-- 
2.43.0


From df76dc69725d66b5b83aada6ab8af8323d15af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:46 +0000
Subject: [PATCH 04/23] fix: treat null row values as not provided in
 Titration, keywords first

---
 calkulate/classes.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 610aac5..ceb7f97 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -6,7 +6,8 @@ import PyCO2SYS as pyco2
 from .convert import get_dilution_factor
 from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .dataset import _backcompat, add_solve_results
-from .files import solve
+from .files import keys_solve, solve
+from .meta import _get_kwargs_for
 
 
 def to_Titration(ds, index, **kwargs):
@@ -170,10 +171,19 @@ class Titration:
 
     def __init__(self, row, **kwargs):
         self.row = row.copy()
-        self.kwargs = _backcompat(kwargs, row)
-        for k, v in kwargs.items():
+        self.kwargs = _backcompat(kwargs, [])
+        for k, v in self.kwargs.items():
             self.row[k] = v
-        self.sr = solve(**self.row)
+        # As in a dataset, null values in the row are treated as not provided
+        kwargs_solve = _get_kwargs_for(
+            keys_solve, _backcompat({}, row), self.row
+        )
+        self.sr = solve(
+            self.row.file_name,
+            self.row.titrant_molinity,
+            self.row.salinity,
+            **kwargs_solve,
+        )
         self.t = {
             "titrant_mass": self.sr.titrant_mass,
             "temperature": self.sr.temperature,
-- 
2.43.0


From 9b23493aacfd3688956b6cb7b317e354c020fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:46 +0000
Subject: [PATCH 05/23] fix: use the analyte mass from the volume in Titration

---
 calkulate/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index ceb7f97..2b3da59 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -191,6 +191,7 @@ class Titration:
             "used": self.sr.used,
         }
         self.row = add_solve_results(self.row, self.sr)
+        self.row["analyte_mass"] = self.sr.analyte_mass
         if isinstance(self.sr, SolveEmfResult):
             self.t.update(
                 {
-- 
2.43.0


From de759f5592cd59226956f1d46a8a75ab8a0b1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:46 +0000
Subject: [PATCH 06/23] fix: account for titrant_normality in the Titration
 table

---
 calkulate/classes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 2b3da59..0aaccb5 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -178,6 +178,7 @@ class Titration:
         kwargs_solve = _get_kwargs_for(
             keys_solve, _backcompat({}, row), self.row
         )
+        self.titrant_normality = kwargs_solve.get("titrant_normality", 1)
         self.sr = solve(
             self.row.file_name,
             self.row.titrant_molinity,
@@ -248,7 +249,9 @@ class Titration:
     def get_alkalinity_from_acid(self):
         self.titration["alkalinity_from_acid"] = (
             1e-6 * self.alkalinity * self.analyte_mass
-            - self.titration.titrant_mass * self.titrant_molinity
+            - self.titration.titrant_mass
+            * self.titrant_molinity
+            * self.titrant_normality
         ) / (self.analyte_mass + self.titration.titrant_mass)
 
     def do_CO2SYS(self):
@@ -308,6 +311,7 @@ class Titration:
             st.alkalinity_from_pH
             + st.titrant_mass
             * self.titrant_molinity
+            * self.titrant_normality
             / (st.titrant_mass + self.analyte_mass)
         ) / st.dilution_factor
 
-- 
2.43.0


From 475bbbfe4e8cdf3617cd6857cacaf9415cc3b7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:46 +0000
Subject: [PATCH 07/23] fix: use the opt_total_borate keyword when filling
 total salts

---
 calkulate/dataset.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 1b62fbf..b87d9c7 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -13,18 +13,18 @@ from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .meta import _get_kwargs_for
 
 
-def get_total_salts(ds):
+def get_total_salts(ds, opt_total_borate=1):
     """Estimate total salt contents from salinity using PyCO2SYS without
     overwriting existing values.  Operates in-place.
     """
     assert "salinity" in ds, 'Dataset must contain a "salinity" column.'
-    # Use opt_total_borate = 1 where it's not provided
+    # Use the opt_total_borate kwarg where there is no value in the dataset
     if "opt_total_borate" in ds:
         ds["opt_total_borate"] = ds.opt_total_borate.where(
-            ds.opt_total_borate.notnull(), 1
+            ds.opt_total_borate.notnull(), opt_total_borate
         )
     else:
-        ds["opt_total_borate"] = 1
+        ds["opt_total_borate"] = opt_total_borate
     salts = ["total_sulfate", "total_borate", "total_fluoride"]
     do_pyco2 = not np.all([s in ds and ds[s].notnull().all() for s in salts])
     if do_pyco2:
@@ -107,8 +107,8 @@ def get_batches(ds):
     return batches
 
 
-def prepare(ds):
-    get_total_salts(ds)
+def prepare(ds, **kwargs):
+    get_total_salts(ds, **_get_kwargs_for({"opt_total_borate"}, kwargs))
     # Get analyte_mass from analyte_volume if required
     if "analyte_mass" not in ds:
         assert "analyte_volume" in ds, (
@@ -145,7 +145,7 @@ def calibrate(ds, verbose=False, **kwargs):
         The titration metadataset with additional columns found by the solver.
     """
     print("Calkulate: calibrating titrant_molinity...")
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "alkalinity_certified" in ds, (
         'ds must contain an "alkalinity_certified" column!'
     )
@@ -254,7 +254,7 @@ def solve(ds, verbose=False, **kwargs):
             "kwargs not recognised, being ignored: "
             + ("{} " * len(kwargs_ignored)).format(*kwargs_ignored)
         )
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "titrant_molinity" in ds, (
         'ds must contain an "titrant_molinity" column!'
     )
-- 
2.43.0


From 968e6550aab65667450adc3cfb6a1f7b8b59189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:46 +0000
Subject: [PATCH 08/23] fix: use the titrant_amount_unit keyword where the
 column is null

---
 calkulate/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index b87d9c7..3a28f65 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -120,7 +120,7 @@ def prepare(ds, **kwargs):
     if "titrant_amount_unit" in ds:
         ds["titrant_amount_unit"] = np.where(
             pd.isnull(ds.titrant_amount_unit),
-            "ml",
+            kwargs.get("titrant_amount_unit", "ml"),
             ds.titrant_amount_unit,
         )
     if "file_good" not in ds:
-- 
2.43.0


From 3754a887454ecabb865474a85646dd9f0120c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:47 +0000
Subject: [PATCH 09/23] fix: ignore null read_dat_method values

---
 calkulate/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 3a28f65..436e034 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -52,7 +52,7 @@ def _backcompat(kwargs, row):
     for old, new in old2new.items():
         if old in kwargs:
             kwargs[new] = kwargs[old]
-        if "read_dat_method" in row:
+        if old in row and pd.notnull(row[old]):
             kwargs[new] = row[old]
     return kwargs
 
-- 
2.43.0


From 896356e16815aafe3ae2af756181bcce83983512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:47 +0000
Subject: [PATCH 10/23] fix: read negative values in PC LIMS reports

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index ab45ee3..30a50a6 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -46,7 +46,7 @@ def read_dat_pclims(
     with open(file_name, mode="r", encoding="unicode-escape") as f:
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
-    re_data = re.compile(r"[\d\.]*" + r"\t[\d\.]*" * (n_cols - 1))
+    re_data = re.compile(r"-?[\d\.]*" + r"\t-?[\d\.]*" * (n_cols - 1))
     data = []
     i = 0
     stop = False
-- 
2.43.0


From 3cee278f0a50188a492bb1b0b68359e37c951875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:47 +0000
Subject: [PATCH 11/23] fix: name the unrecognised file type in read_dat's
 warning

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index 30a50a6..b66293e 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -171,8 +171,8 @@ keys_read_dat = {
 def read_dat(file_name, file_type="genfromtxt", **kwargs):
     """Import a titration dataset from a .dat file."""
     if file_type not in file_types:
-        file_type = "genfromtxt"
         warn(f"method '{file_type}' not recognised, trying 'genfromtxt'.")
+        file_type = "genfromtxt"
     dat_data = file_types[file_type](file_name, **kwargs)
     return dat_data
 
-- 
2.43.0


From d3511164b0b3da1f3664a9638c90735afe6f7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:21 +0000
Subject: [PATCH 12/23] fix: pass the DIC loss coefficient to the model as a
 number

scipy gives the coefficient as a one-element array, which recent numpy
refuses to store into an array element, so the DIC loss fit always failed.
---
 calkulate/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/loss.py b/calkulate/loss.py
index 4cf9918..1c53b28 100644
--- a/calkulate/loss.py
+++ b/calkulate/loss.py
@@ -35,7 +35,7 @@ def _lsqfun_dic_loss_model(
 ):
     return (
         dic_loss_model_fitted(
-            k_dic_loss,
+            k_dic_loss[0],
             i_titrant_mass,
             i_delta_fCO2,
             dic_start,
@@ -174,7 +174,7 @@ def get_dic_loss_hires(
             i_dic_loss,
         ),
     )
-    k_dic_loss = k_dic_loss_opt_result["x"]
+    k_dic_loss = k_dic_loss_opt_result["x"][0]
     # Calculate DIC from k_dic_loss in the fitted region
     i_dic = dic_loss_model_fitted(
         k_dic_loss,
@@ -202,7 +202,7 @@ def get_dic_loss_hires(
         step_tm,
         fCO2_air=fCO2_air,
     )
-    return k_dic_loss[0], {
+    return k_dic_loss, {
         "titrant_mass": a_titrant_mass,
         "pH": a_pH,
         "dic": np.concatenate((i_dic, f_dic)),
-- 
2.43.0


From 22e4d5c28861b8146cb7d6a984ed56d9a40ba34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:19 +0000
Subject: [PATCH 13/23] fix: read titration files with a single data row

numpy.genfromtxt returned a one-dimensional array for them, so a written
one-point titration could not be read back.
---
 calkulate/read/titrations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index b66293e..0a04be1 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -26,7 +26,11 @@ def read_dat_genfromtxt(
 ):
     """Import a titration dataset from a .dat file with numpy.genfromtxt."""
     data = np.genfromtxt(
-        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
+        file_name,
+        delimiter=delimiter,
+        skip_header=skip_header,
+        ndmin=2,
+        **kwargs,
     )
     titrant_amount = data[:, col_titrant_amount]
     measurement = data[:, col_measurement]
-- 
2.43.0


From 76b5297070589ad6e227362d6a487d86238c58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 14/23] fix: keep leading zeros of numeric bottle names in .dbs
 files

If every bottle name in the file was a number, the column was read as
integers and the file names built from it did not exist.
---
 calkulate/read/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 71c6477..58e98f2 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -114,7 +114,11 @@ def read_dbs(
     """
     headers = np.genfromtxt(fname, delimiter="\t", dtype=str, max_rows=1)
     dbs = pd.read_table(
-        fname, header=0, names=headers, usecols=headers
+        fname,
+        header=0,
+        names=headers,
+        usecols=headers,
+        dtype={"bottle": str},  # otherwise leading zeros can get lost
     ).rename(columns={"run type": "run_type"})
     dbs["dbs_fname"] = fname
     dbs = add_func_cols(dbs, dbs_datetime)
-- 
2.43.0


From 0b5d84c15aa1f968fb188ee7c821675f163bfb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:08 +0000
Subject: [PATCH 15/23] fix: CRM file names if the batch is missing in any row
 of a .dbs file

The batch column is then read as floats, which put a decimal point into
every CRM's file name.
---
 calkulate/read/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 58e98f2..11d589d 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -70,7 +70,10 @@ def get_VINDTA_filenames(dbs, filename_format="{s}-{c}  {n}  ({d}){b}.dat"):
                 b=row.bottle,
             )
         elif row.run_type == "CRM":
-            dbs.loc[i, "file_name"] = f"CRM{row.batch}{row.bottle}.dat"
+            batch = row.batch
+            if isinstance(batch, float) and batch.is_integer():
+                batch = int(batch)  # float if missing in any other row
+            dbs.loc[i, "file_name"] = f"CRM{batch}{row.bottle}.dat"
             dbs.loc[i, "alkalinity_certified"] = row["cert. CRM AT"]
         else:
             dbs.loc[i, "file_good"] = False
-- 
2.43.0


From ea843d3f4e6d958ca143a6e101397fe9e617cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:22 +0000
Subject: [PATCH 16/23] fix: import .dbs files with a missing analysis time

A row with a date but no time stopped the import of the whole file.
---
 calkulate/read/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 11d589d..e4678e2 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -44,7 +44,7 @@ def dbs_datetime(dbs_row):
             + "T"
             + dbs_row["time"]
         )
-    except AttributeError:
+    except (AttributeError, TypeError):
         analysis_datetime = np.datetime64("NaT")
     return pd.Series(
         {
-- 
2.43.0


From f5b334351bbcc6b32745cbd90e82ccf9e3440a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:46 +0000
Subject: [PATCH 17/23] fix: do not report read_dat_method as an ignored
 keyword in dataset.solve

---
 calkulate/dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 436e034..86ee956 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -247,7 +247,11 @@ def solve(ds, verbose=False, **kwargs):
     # Check for bad kwargs, but don't break on them
     kwargs_ignored = []
     for k in _backcompat(kwargs.copy(), []):
-        if k not in files.keys_calibrate | {"pH_range", "read_dat_kwargs"}:
+        if k not in files.keys_calibrate | {
+            "pH_range",
+            "read_dat_kwargs",
+            "read_dat_method",
+        }:
             kwargs_ignored.append(k)
     if len(kwargs_ignored) > 0:
         warn(
-- 
2.43.0


From 89948007636c55195779942aa6a0255e33378a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:38 +0000
Subject: [PATCH 18/23] fix: keep the decimals of a temperature override when
 the file's temperatures are integers

---
 calkulate/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/convert.py b/calkulate/convert.py
index c8798de..52a1bf4 100644
--- a/calkulate/convert.py
+++ b/calkulate/convert.py
@@ -206,7 +206,9 @@ def amount_units(
     dd = dat_data
     # Overwrite temperature, if requested
     if temperature_override is not None:
-        temperature = np.full_like(dd.temperature, temperature_override)
+        temperature = np.full_like(
+            dd.temperature, temperature_override, dtype=float
+        )
     else:
         temperature = dd.temperature
     # Get titrant mass
-- 
2.43.0


From 0e53fd3cfa8659e7e0075172d965a27789744487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:53 +0000
Subject: [PATCH 19/23] fix: a titration with no analysis batch does not stop
 the calibration of the others

---
 calkulate/dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 86ee956..2f96142 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -159,9 +159,9 @@ def calibrate(ds, verbose=False, **kwargs):
     if "reference_good" not in ds:
         ds["reference_good"] = ~np.isnan(ds.titrant_molinity_here)
     batches = get_batches(ds)
-    ds["titrant_molinity"] = batches.loc[
-        ds.analysis_batch, "titrant_molinity"
-    ].to_numpy()
+    ds["titrant_molinity"] = (
+        batches["titrant_molinity"].reindex(ds.analysis_batch).to_numpy()
+    )
     print("Calkulate: calibration complete!")
     ds = solve(ds, verbose=verbose, **kwargs)
     return ds
-- 
2.43.0


From 0bf9bdbebcf5cd58bac11371820192f63a209f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 20/23] fix: a calibration that fails leaves the caller's
 totals as they were

---
 calkulate/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 14770c8..f22ddff 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -31,6 +31,7 @@ calibrate_pH
 
 import warnings
 from collections import namedtuple
+from copy import deepcopy
 from warnings import warn
 
 import numpy as np
@@ -999,7 +1000,7 @@ def calibrate_emf(
             emf,
             temperature,
             analyte_mass,
-            totals,
+            deepcopy(totals),
             k_constants,
             alkalinity_init,
             double,
@@ -1123,7 +1124,7 @@ def calibrate_pH(
             pH,
             temperature,
             analyte_mass,
-            totals,
+            deepcopy(totals),
             k_constants,
             pH_min,
             pH_max,
@@ -1243,7 +1244,7 @@ def calibrate_pH_gran(
             pH,
             temperature,
             analyte_mass,
-            totals,
+            deepcopy(totals),
             k_constants,
             pH_min,
             pH_max,
-- 
2.43.0


From 5f96c923f11dc16e5cb99dd79d16bd95d065ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:43 +0000
Subject: [PATCH 21/23] fix: print a Titration whose file_path cell is empty

---
 calkulate/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 0aaccb5..e09e86e 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -233,14 +233,14 @@ class Titration:
             raise AttributeError(key)
 
     def __str__(self):
-        if "file_path" in self.row:
+        if pd.notnull(self.row.get("file_path")):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
             f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
-        if "file_path" in self.row:
+        if pd.notnull(self.row.get("file_path")):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
             f = self.row.file_name
-- 
2.43.0


From d269b7981525e2ee73e10d54793e259d66a6b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:11 +0000
Subject: [PATCH 22/23] fix: add titrant totals of substances absent from the
 analyte

`add_titrant_totals` raised a KeyError for a titrant that carries, for
example, phosphate if there was none in the analyte, because totals that are
zero are left out of the `totals` dict.
---
 calkulate/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index f22ddff..c0357ec 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -510,7 +510,8 @@ def add_titrant_totals(
     for t_total, factor in titrant_totals.items():
         assert t_total.startswith("titrant_total_")
         total = t_total[8:]
-        totals[total] += (
+        # The total may be absent if there is none of it in the analyte
+        totals[total] = totals.get(total, 0) + (
             titrant_mass
             * (titrant_molinity - titrant_molinity_prev)
             * factor
-- 
2.43.0


From 3e098e4c37d5e665f870d2f9621fedbfcbed9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:49 +0000
Subject: [PATCH 23/23] fix: read titration reports that contain backslashes

Reports were decoded with "unicode_escape", which fails on text such as a
Windows path (C:\Users\...).  The other bytes are read as before.
---
 calkulate/read/titrations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index 0a04be1..d41c818 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -47,7 +47,7 @@ def read_dat_pclims(
 ):
     """Import a titration dataset from a PC LIMS Report."""
     # Import full data file
-    with open(file_name, mode="r", encoding="unicode-escape") as f:
+    with open(file_name, mode="r", encoding="latin-1") as f:
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
     re_data = re.compile(r"-?[\d\.]*" + r"\t-?[\d\.]*" * (n_cols - 1))
@@ -101,7 +101,7 @@ def read_dat_orgalk_excel(file_name):
     )
 
 
-def _read_tiamo_de_df(file_name, encoding="unicode_escape"):
+def _read_tiamo_de_df(file_name, encoding="latin-1"):
     with open(file_name, "r", encoding=encoding) as f:
         data = f.read().splitlines()
     gran_line = data.index("Gran.1")
@@ -127,7 +127,7 @@ def _read_tiamo_de_df(file_name, encoding="unicode_escape"):
     return data
 
 
-def read_tiamo_de(file_name, encoding="unicode_escape"):
+def read_tiamo_de(file_name, encoding="latin-1"):
     """Read volume, pH and temperature from a German Tiamo data file
     (as received from T. Steinhoff, GEOMAR).
 
@@ -136,7 +136,7 @@ def read_tiamo_de(file_name, encoding="unicode_escape"):
     file_name : str
         The file name (and path).
     encoding : str, optional
-        The file encoding, by default "unicode_escape"
+        The file encoding, by default "latin-1"
 
     Returns
     -------
-- 
2.43.0

