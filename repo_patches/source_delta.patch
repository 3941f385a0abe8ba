From 800c4ab55d9db5ca17384b925bc1a62c23d3c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:18 +0000
Subject: [PATCH 01/12] fix: store natural logarithms of the physical scales in
 OnePointSpectra

exp_scales() exponentiates these parameters with torch.exp, so a model built
on its own evaluated with L**(1/ln 10) instead of L (and likewise for Gamma
and sigma).
---
 drdmannturb/spectra_fitting/one_point_spectra.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 99baa85..d70f727 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -137,13 +137,13 @@ class OnePointSpectra(nn.Module):
 
             self.coh_meshgrid23 = torch.meshgrid(self.coh_grid_k2, self.coh_grid_k3, indexing="ij")
 
-        self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L)))
-        self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma)))
-        self.logMagnitude = nn.Parameter(torch.tensor(np.log10(physical_params.sigma)))
+        self.logLengthScale = nn.Parameter(torch.tensor(np.log(physical_params.L)))
+        self.logTimeScale = nn.Parameter(torch.tensor(np.log(physical_params.Gamma)))
+        self.logMagnitude = nn.Parameter(torch.tensor(np.log(physical_params.sigma)))
 
-        self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L), dtype=torch.get_default_dtype()))
-        self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma), dtype=torch.get_default_dtype()))
-        self.logMagnitude = nn.Parameter(torch.tensor(np.log10(physical_params.sigma), dtype=torch.get_default_dtype()))
+        self.logLengthScale = nn.Parameter(torch.tensor(np.log(physical_params.L), dtype=torch.get_default_dtype()))
+        self.logTimeScale = nn.Parameter(torch.tensor(np.log(physical_params.Gamma), dtype=torch.get_default_dtype()))
+        self.logMagnitude = nn.Parameter(torch.tensor(np.log(physical_params.sigma), dtype=torch.get_default_dtype()))
 
         if use_learnable_spectrum:
             self.p_exponent = nn.Parameter(torch.tensor(p_exponent))
-- 
2.43.0


From 52e8fde7cbec2e7798c39a4d6795afba0212a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:24 +0000
Subject: [PATCH 02/12] fix: evaluate the DRD kernel's eddy lifetime at the
 fitted argument

OnePointSpectra fits tauNet as a function of k*LengthScale (non-dimensional k),
but NNCovariance evaluated it at k*h_ref, dropping the fitted length scale, so
generated fields used a different eddy lifetime from the calibrated one.
---
 drdmannturb/fluctuation_generation/nn_covariance.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 88357ce..b198215 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -88,9 +88,8 @@ class NNCovariance(Covariance):
 
         self.OPS = ops
         self.h_ref = h_ref
-        ### NOTE: NN implicitly involves the length scales (it is associated with non-dimensional internal L)
-        ### NOTE: However, here we scale L with the reference_height - the latter has to be taken into account from
-        ###       the physical setting
+        ### NOTE: the NN takes the wavevector scaled by the fitted length scale (see OnePointSpectra.EddyLifetime);
+        ###       length_scale is that scale times the reference height.
 
     def precompute_Spectrum(self, Frequencies: np.ndarray) -> np.ndarray:
         """Pre-compute the square-root of the associated spectrum tensor in the complex domain.
@@ -113,7 +112,7 @@ class NNCovariance(Covariance):
         kk = np.sum(k**2, axis=0)
 
         with np.errstate(divide="ignore", invalid="ignore"):
-            k_torch = torch.tensor(np.moveaxis(k, 0, -1)) * self.h_ref
+            k_torch = torch.tensor(np.moveaxis(k, 0, -1)) * self.L
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
             beta = beta_torch.detach().cpu().numpy() if beta_torch.is_cuda else beta_torch.detach().numpy()
             beta[np.where(kk == 0)] = 0
-- 
2.43.0


From 110d4360bddb70c60239914d59a813fb42a49d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:33 +0000
Subject: [PATCH 03/12] fix: evaluate the DRD eddy lifetime network in its own
 precision

The wavevectors are double precision and the network weights single precision
unless the default dtype was changed, so DRD field generation failed with
'expected m1 and m2 to have the same dtype'.
---
 drdmannturb/fluctuation_generation/nn_covariance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index b198215..9bcd4af 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -112,7 +112,8 @@ class NNCovariance(Covariance):
         kk = np.sum(k**2, axis=0)
 
         with np.errstate(divide="ignore", invalid="ignore"):
-            k_torch = torch.tensor(np.moveaxis(k, 0, -1)) * self.L
+            net_dtype = next(self.OPS.tauNet.parameters()).dtype
+            k_torch = torch.tensor(np.moveaxis(k, 0, -1) * self.L, dtype=net_dtype)
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
             beta = beta_torch.detach().cpu().numpy() if beta_torch.is_cuda else beta_torch.detach().numpy()
             beta[np.where(kk == 0)] = 0
-- 
2.43.0


From 3cd815d77b324c67b2aee3854e1498046585939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:47 +0000
Subject: [PATCH 04/12] fix: calibrate() without the learnable energy spectrum

The per-epoch report read OPS.p_exponent and OPS.q_exponent, which only exist
when use_learnable_spectrum is set, so every other calibration raised
AttributeError after its first epoch.
---
 drdmannturb/spectra_fitting/calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 55ce139..65743c0 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -499,8 +499,9 @@ class CalibrationProblem:
             print(f"\tCurrent L: {self.OPS.LengthScale.item()}")
             print(f"\tCurrent Gamma: {self.OPS.TimeScale.item()}")
             print(f"\tCurrent sigma: {self.OPS.Magnitude.item()}")
-            print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
-            print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
+            if self.prob_params.use_learnable_spectrum:
+                print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
+                print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
 
             if not (torch.isfinite(self.loss)):
                 raise RuntimeError("Loss is not a finite value, check initialization and learning hyperparameters.")
-- 
2.43.0


From 3242fd3cf6945422ae9bd1d4d81b91e165331551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:18 +0000
Subject: [PATCH 05/12] fix: DomainParameters could not be constructed

__post_init__ read the grid_levels property before its backing attribute was
set, so every construction raised AttributeError.
---
 drdmannturb/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 43e198d..9659614 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -229,7 +229,7 @@ class DomainParameters:
             self._grid_dimensions = np.array(self.d_dimensions)
 
         # Check grid levels
-        if isinstance(self.grid_levels, (list, np.ndarray)) and len(self.grid_levels) != 3:
+        if isinstance(self.d_levels, (list, np.ndarray)) and len(self.d_levels) != 3:
             raise ValueError("Grid levels must be a tuple of length 3.")
 
         if isinstance(self.d_levels, np.ndarray):
-- 
2.43.0


From ae23b942ebe6cc8848af5d415fb0200ba551919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:18 +0000
Subject: [PATCH 06/12] fix: place coherence measurements by their own
 separation and frequency

A complete file whose rows are not ordered by separation then frequency was
reshaped in file order, and an incomplete file whose indices do not start at
zero without gaps was stored at the wrong positions or dropped.
---
 drdmannturb/spectra_fitting/calibration.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 65743c0..6671dbd 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1181,6 +1181,8 @@ class CalibrationProblem:
 
         # Read the data with header - the file has comments (#) and then a header row
         df = pd.read_csv(coherence_data_file, sep=r"\s+", comment="#", header=0)
+        # The grids below are indexed by (separation, frequency), whatever the order of the rows in the file
+        df = df.sort_values(["sep_idx", "freq_idx"], ignore_index=True)
 
         print(f"Total data points read: {len(df)}")
         print(f"Column names: {df.columns.tolist()}")
@@ -1211,12 +1213,11 @@ class CalibrationProblem:
 
             # Fill in the available data
             for _, row in df.iterrows():
-                i = int(row["sep_idx"])
-                j = int(row["freq_idx"])
-                if i < n_seps and j < n_freqs:
-                    coh_u[i, j] = row["coh_u"]
-                    coh_v[i, j] = row["coh_v"]
-                    coh_w[i, j] = row["coh_w"]
+                i = sep_mapping.index.get_loc(int(row["sep_idx"]))
+                j = freq_mapping.index.get_loc(int(row["freq_idx"]))
+                coh_u[i, j] = row["coh_u"]
+                coh_v[i, j] = row["coh_v"]
+                coh_w[i, j] = row["coh_w"]
 
             # Check how many NaN values we have
             nan_count = np.sum(np.isnan(coh_u))
-- 
2.43.0


From bce01717dfef88f6065fbe30eea0319d31dcf260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:30 +0000
Subject: [PATCH 07/12] fix: continue the low-frequency field across generate()
 calls

A second call to generate() appended blocks but interpolated the low-frequency
wind from x = 0 again instead of continuing where the earlier blocks ended.
---
 .../fluctuation_generation/fluctuation_field_generator.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index d631464..1bfc139 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -450,7 +450,8 @@ class FluctuationFieldGenerator:
                 # --- X-Coordinates (blocks progress in x-direction
                 current_block_nx = normed_block.shape[0]
                 block_length_x = self.grid_dimensions[0] * (current_block_nx / self.Nx)
-                x_start = i * self.grid_dimensions[0]  # TODO: Revisit if blending affects block start/end precisely
+                # Blocks from earlier generate() calls count as well: the field continues where they ended
+                x_start = self.grid_dimensions[0] * (self.total_fluctuation.shape[0] / self.Nx)
                 x_end = x_start + block_length_x
                 x_coords_block_target = np.linspace(x_start, x_end, current_block_nx, endpoint=False)
 
-- 
2.43.0


From 0d70b9284cb005411b0ebb8b745d946b76fffa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:22 +0000
Subject: [PATCH 08/12] fix: fit the Mann eddy lifetime approximation in
 non-dimensional wavenumbers

EddyLifetime evaluates the approximation at kL and multiplies it by the time scale; the regression
applied both scales once more, so lifetimes were off by the time scale and by a rescaled wavenumber
unless L = Gamma = 1.
---
 drdmannturb/spectra_fitting/one_point_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index d70f727..c58034c 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -443,7 +443,7 @@ class OnePointSpectra(nn.Module):
         kL_temp = np.logspace(-3, 3, 50)
 
         kL_temp = kL_temp.reshape(-1, 1)
-        tau_true = np.log(self.TimeScale_scalar * MannEddyLifetime(self.LengthScale_scalar * kL_temp))
+        tau_true = np.log(MannEddyLifetime(kL_temp))
 
         kL_temp_log = np.log(kL_temp)
 
-- 
2.43.0


From 5b4a5b27f7793db2c1de60be569bc57839f85fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:04 +0000
Subject: [PATCH 09/12] fix: theoretical low-frequency spectra are floating
 point for integer wavenumber arrays

---
 .../low_frequency/fluctuation_field_generator.py          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 3bccb57..402d85f 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -784,10 +784,10 @@ class LowFreqGenerator:
         ``[-k2_limit, k2_limit]``. Potential integration errors or warnings from
         `scipy.integrate.quad` are caught and reported if ``warn=True``.
         """
-        F11_res_arr = np.zeros_like(k1_arr)
-        F11_err_arr = np.zeros_like(k1_arr)
-        F22_res_arr = np.zeros_like(k1_arr)
-        F22_err_arr = np.zeros_like(k1_arr)
+        F11_res_arr = np.zeros_like(k1_arr, dtype=float)
+        F11_err_arr = np.zeros_like(k1_arr, dtype=float)
+        F22_res_arr = np.zeros_like(k1_arr, dtype=float)
+        F22_err_arr = np.zeros_like(k1_arr, dtype=float)
 
         # Store class attributes locally for potential performance/clarity inside helpers
         _psi = self.psi
-- 
2.43.0


From 4001c8419801b375690903e8abba24dc31b90c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 10/12] fix: write plain numbers as the spacing of an exported
 VTK file

pyevtk writes repr() of each spacing, which for numpy scalars is
"np.float64(...)" and cannot be read back.
---
 .../fluctuation_generation/fluctuation_field_generator.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 1bfc139..beb8829 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -514,7 +514,7 @@ class FluctuationFieldGenerator:
         """
         from pyevtk.hl import imageToVTK
 
-        spacing = tuple(self.grid_dimensions / (2.0**self.grid_levels + 1))
+        spacing = tuple((self.grid_dimensions / (2.0**self.grid_levels + 1)).tolist())
 
         wind_field_vtk = tuple([np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)])
 
-- 
2.43.0


From a20da93abb734795966f340c62011245e7c8309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 11/12] fix: reject domain parameter tuples that are not of
 length 3

The length was checked for lists and arrays only.
---
 drdmannturb/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 9659614..958aa0f 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -220,7 +220,7 @@ class DomainParameters:
 
     def __post_init__(self):
         # Check grid dimensions
-        if isinstance(self.d_dimensions, (list, np.ndarray)) and len(self.d_dimensions) != 3:
+        if len(self.d_dimensions) != 3:
             raise ValueError("Grid dimensions must be length 3.")
 
         if isinstance(self.d_dimensions, np.ndarray):
@@ -229,7 +229,7 @@ class DomainParameters:
             self._grid_dimensions = np.array(self.d_dimensions)
 
         # Check grid levels
-        if isinstance(self.d_levels, (list, np.ndarray)) and len(self.d_levels) != 3:
+        if len(self.d_levels) != 3:
             raise ValueError("Grid levels must be a tuple of length 3.")
 
         if isinstance(self.d_levels, np.ndarray):
-- 
2.43.0


From 92e5116cc10cdf6412464c9fdf46a39e9caff6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:04 +0000
Subject: [PATCH 12/12] fix: calibrate lifetime models without a network when
 regularisation is enabled

The regularisation term was handed the float 0.0 as network parameters, so
calibrating e.g. the Mann lifetime with beta_reg > 0 failed with
AttributeError: 'float' object has no attribute 'square'.
---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 6671dbd..8682a61 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -427,7 +427,7 @@ class CalibrationProblem:
             # NOTE: Old code used tauNet.NN.parameters() since the NN wasn't "built-in" to the tauNet
             self.gen_theta_NN = lambda: parameters_to_vector(self.OPS.tauNet.parameters())
         else:
-            self.gen_theta_NN = lambda: 0.0
+            self.gen_theta_NN = lambda: None
 
         theta_NN = self.gen_theta_NN()
         # print("\n[DEBUG calibrate] About to calculate initial loss...")
-- 
2.43.0

