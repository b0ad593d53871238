From 192f634fbb96c7aa33aaac53f58d1dfae50a8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 001/108] fix: account for all symmetry operations in
 cos_reduced complex parameters

BandStructureModel.params_complex/set_params_complex moved the '-1' of the
reduced cosine into the on-site matrix only once, although the coefficient
functions contain it once per symmetry operation.
---
 src/tight_binding_redweasel/bandstructure.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ee2ccf2..6266a27 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -604,22 +604,24 @@ class BandStructureModel:
         if self.neighbors is None:
             raise ValueError(
                 "This function can only be used on default tight binding models")
+        # each coefficient function of cos_reduced contains one "-1" per symmetry operation
+        sym_count = 1 if self.sym is None else len(self.sym.S)
         if self.exp:
             H_r = np.array(self.params)
             if self.cos_reduced:
-                H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+                H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0) * sym_count
             return H_r
         H_r = np.array(self.params)
         if self.sym is not None and not self.sym.inversion:
             n = (len(self.params) + 1) // 2
             if self.cos_reduced:
                 # H_r[1:n] += H_r[0]
-                H_r[0] -= np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
+                H_r[0] -= np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0) * sym_count
                 pass
             H_r[1:n] += H_r[n:] * -1j
             H_r = H_r[:n]
         elif self.cos_reduced:
-            H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+            H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0) * sym_count
         return H_r
 
     def set_params_complex(self, H_r):
@@ -634,11 +636,12 @@ class BandStructureModel:
             raise ValueError("This function can only be used on default tight binding models")
         if len(H_r) != len(self.neighbors):
             raise ValueError(f"The parameters {np.shape(H_r)} must match the neighbor count {len(self.neighbors)}")
+        sym_count = 1 if self.sym is None else len(self.sym.S)
         if self.exp:
             self.params = np.array(H_r)
             if self.cos_reduced:
                 self.params[0] += np.sum(self.params[1:] +
-                                         np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0)
+                                         np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0) * sym_count
         else:
             self.params = np.array(H_r)
             n = len(H_r)
@@ -650,7 +653,7 @@ class BandStructureModel:
                 self.params += np.conj(np.swapaxes(self.params, -1, -2))
             self.params /= 2
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:n], axis=0) * 2
+                self.params[0] += np.sum(self.params[1:n], axis=0) * 2 * sym_count
 
     def save(self, filename: str, format=None):
         """Save the model to a file format, which can be read with the correspoding `BandStructureModel.load` function.
-- 
2.43.0


From 4e3459ef4f70f74fa6e2c200601dc4d5781b19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 002/108] fix: complex coefficients of TightBindingModel with
 and without inversion

The constructor used self.params before assignment if inversion was present,
params_complex failed or returned wrong coefficients and set_from_complex
stored wrong matrix elements between opposite parities.
---
 src/tight_binding_redweasel/tight_binding.py | 45 +++++++++++---------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 021a397..583493c 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -27,11 +27,6 @@ class TightBindingModel:
         param_count = len(neighbors)
         if not self.sym.inversion:
             param_count = param_count * 2 - 1 # add separate sin Terms
-        else:
-            # make the onsite matrix blockdiagonal
-            n = unitary_repr.inv_split
-            self.params[0][:n,n:] = 0
-            self.params[0][n:,:n] = 0
         # check params
         if params is not None:
             assert np.shape(unitary_repr.U)[1] == np.shape(params)[1]
@@ -42,6 +37,12 @@ class TightBindingModel:
             assert pshape[0] == param_count
         else:
             self.params = np.zeros((param_count,) + (np.shape(unitary_repr.U)[1],)*2, dtype=np.complex128)
+        if self.sym.inversion:
+            # make the onsite matrix blockdiagonal
+            n = unitary_repr.inv_split
+            self.params = np.array(self.params)
+            self.params[0][:n,n:] = 0
+            self.params[0][n:,:n] = 0
         # TODO sanity checks for symmetrically equivalent neighbors (those are not allowed)
     
     def band_count(self):
@@ -426,30 +427,36 @@ class TightBindingModel:
 
     # get the complex fourier coefficients H_r
     def params_complex(self):
-        H = self.params / 2
+        n = len(self.neighbors)
+        H = np.array(self.params[:n], dtype=np.complex128)
+        H[1:] /= 2
         if self.sym.inversion:
+            # the matrix elements between different parity belong to sin(kr) = (exp(ikr) - exp(-ikr))/2i
             k = self.unitary_repr.inv_split
-            H[:,:k,k:] *= 1j
-            H[:,k:,:k] *= 1j
+            H[1:,:k,k:] *= -1j
+            H[1:,k:,:k] *= -1j
         else:
-            H[1:] += H[(len(self.params)+1)//2:] * 1j
-            H = H[:(len(self.params)+1)//2]
+            H[1:] += self.params[n:] * -0.5j
+        # remove the -1 of the cos(kr)-1 terms
+        H[0] -= np.sum(H[1:] + np.conj(np.swapaxes(H[1:], -1, -2)), axis=0)
         return H
     
     # set params from the complex fourier coefficients H_r
     def set_from_complex(self, H_r):
-        # TODO doesn't work...
-        self.params = np.array(H_r)
-        n = len(H_r)
+        H_r = np.array(H_r, dtype=np.complex128)
+        A = H_r + np.conj(np.swapaxes(H_r, -1, -2)) # cos(kr) terms
+        B = 1j*(H_r - np.conj(np.swapaxes(H_r, -1, -2))) # sin(kr) terms
+        onsite = A[0] / 2 + np.sum(A[1:], axis=0) # params[0] is the matrix at k=0
         if not self.sym.inversion:
-            A = self.params + np.conj(np.swapaxes(self.params, -1, -2))
-            B = 1j*(self.params - np.conj(np.swapaxes(self.params, -1, -2)))
             self.params = np.concatenate([A, B[1:]], axis=0)
         else:
-            self.params += np.conj(np.swapaxes(self.params, -1, -2))
-        self.params /= 2
-        self.params[0] += np.sum(self.params[1:n], axis=0)*2
-        self.params[1:] *= 2
+            k = self.unitary_repr.inv_split
+            A[:,:k,k:] = B[:,:k,k:]
+            A[:,k:,:k] = B[:,k:,:k]
+            self.params = A
+            onsite[:k,k:] = 0
+            onsite[k:,:k] = 0
+        self.params[0] = onsite
     
     def bands(self, k_smpl):
         return np.linalg.eigvalsh(self.f(k_smpl))
-- 
2.43.0


From 759490a0fbca1a95498a302d72b56de51145c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 003/108] fix: TightBindingModel.copy passed the wrong
 constructor arguments

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 583493c..b7414e8 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -493,7 +493,7 @@ class TightBindingModel:
         return bands, grads, hess1 - 2*hess2
 
     def copy(self):
-        return TightBindingModel(self.f_i, self.df_i, self.params.copy())
+        return TightBindingModel(self.unitary_repr, np.array(self.neighbors), self.params.copy())
     
     # make a tight binding model for a supercell with [nx, ny, nz] = repeats
     def copy_transformed(self, transform):
-- 
2.43.0


From 1dbab81a163ad6423a054b44b8eebe1dc10cc3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 004/108] fix: mixed second derivatives of bands next to a
 degenerate multiplet

eigh_grad_hess used a different basis of the multiplet per direction, which
gave wrong off-diagonal Hessians for the non degenerate bands.
---
 src/tight_binding_redweasel/linalg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index ae7894d..44f6e03 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -167,6 +167,7 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
         # To keep the efficiency high, only do the second diagonalisation for those which need it.
         # TODO select only works if select.shape != tuple()
         assert len(np.shape(dH_ev[select])) == len(dH_ev.shape)
+        dH_ev_select = dH_ev[select]  # copy without the basis change below
         _, ev_dH = np.linalg.eigh(dH_ev[select] * mask[select][..., None, :, :])
         # stable sort ev such that the order of la doesn't change!
         sorting = np.argsort(np.argmin(np.abs(ev_dH) < 1e-7, axis=-2, keepdims=True), axis=-1)
@@ -183,6 +184,13 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     dH_ev2 /= (diff + 1e-40)[..., None, :, :]
     # hessian contribution from first derivative, second order perturbation theory
     hess2 = np.real(np.einsum("...pik,...qki->...pqi", dH_ev, dH_ev2))
+    if select.sum():
+        # the basis change depends on the direction of the derivative, so it can't be used in mixed derivatives
+        # of the non degenerate bands. They don't need it, as they only see the degenerate bands as a whole.
+        dH_ev2 = dH_ev_select * inv_mask[select][..., None, :, :]
+        dH_ev2 /= (diff[select] + 1e-40)[..., None, :, :]
+        non_degenerate = np.sum(mask[select], axis=-1) == 1
+        hess2[select] = np.where(non_degenerate[..., None, None, :], np.real(np.einsum("...pik,...qki->...pqi", dH_ev_select, dH_ev2)), hess2[select])
     return eigvals, grads, hess1 - 2 * hess2
 
 
-- 
2.43.0


From 5b8a8e92dbb6256afbf64f9cf8da2bc8b845955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 005/108] fix: include the derivatives of the overlap matrix in
 AsymTightBindingModel.bands_grad_hess

---
 src/tight_binding_redweasel/tight_binding_asym.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7815886..1e499bf 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -804,14 +804,23 @@ class AsymTightBindingModel:
         Returns:
             (arraylike(N_k, N_b), arraylike(N_k, dim, N_b), arraylike(N_k, dim, dim, N_b)): (bands, grads, hessians)
         """
-        # TODO add dS and ddS!!
         bands, ev = geigh(self.H.f(k_smpl), self.S.f(k_smpl))
         df = self.H.df(k_smpl)
         ddf = self.H.ddf(k_smpl)
+        ds = self.S.df(k_smpl)
+        dds = self.S.ddf(k_smpl)
         # first order perturbation theory terms
         df_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), df, ev)
+        ds_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), ds, ev)
+        # the column index is the band that is perturbed
+        df_ev = df_ev - ds_ev * bands[:, None, None, :]
+        ds_diag = np.real(np.diagonal(ds_ev, axis1=2, axis2=3))
         grads = np.real(np.diagonal(df_ev, axis1=2, axis2=3))
         hess1 = np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), ddf, ev))
+        hess1 -= np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), dds, ev)) * bands[:, None, None, :]
+        # change of the normalisation of the eigenvectors
+        norm = grads[:, :, None, :] * ds_diag[:, None, :, :]
+        hess1 -= norm + np.swapaxes(norm, 1, 2)
         # second order perturbation theory terms
         no_diag = np.array(df_ev)  # copy before modification (grads is a view)
         for i in range(len(grads[0, 0])):
@@ -820,7 +829,7 @@ class AsymTightBindingModel:
         # hess2 = np.real(np.einsum("mji, mpjk, mqki -> mpqi", 2*np.conj(ev), df, dev))
         db = no_diag / (bands[:, None, :, None] -
                         bands[:, None, None, :] + 1e-40)
-        hess2 = np.real(np.einsum("mpik, mqki -> mpqi", df_ev, db))
+        hess2 = np.real(np.einsum("mpki, mqki -> mpqi", np.conj(df_ev), db))
         return bands, grads, hess1 - 2*hess2
 
     def supercell(self, A_original, A_new) -> 'AsymTightBindingModel':
-- 
2.43.0


From ecee9e53aa518bc3c64ee2c610c184ff66737fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 006/108] fix: load and supercell of BandStructureModel in 1D
 and 2D

The trivial symmetry was always created in three dimensions.
---
 src/tight_binding_redweasel/bandstructure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 6266a27..16b82e8 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -740,18 +740,18 @@ class BandStructureModel:
         elif format == "wannier90hr":
             neighbors, H_r = tb_fmt.load_hr(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         elif format == "wannier90tb":
             neighbors, H_r, w_r_params, degeneracies, A = tb_fmt.load_tb(filename)
             # TODO use A to transform neighbors to normalized reciprocal space.
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         elif format == "json":
             neighbors, H_r = json_tb_format.load(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         return model
 
@@ -882,7 +882,7 @@ class BandStructureModel:
                         H_r[k, i * n:(i + 1) * n, j * n:(j + 1) *
                             n] = params[m] if not mirror else np.conj(params[m].T)
         model = BandStructureModel.init_tight_binding(
-            Symmetry.none(), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
+            Symmetry.none(dim), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
         model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From b6458fa86a581db0b8c5bcc59ea5dbe522074db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 007/108] fix: restore numpy print options if saving a model
 fails

Also check for a missing symmetry before the file is created.
---
 src/tight_binding_redweasel/bandstructure.py  | 28 ++++++++-----------
 .../tight_binding_asym.py                     | 11 +++-----
 2 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 16b82e8..256dd2f 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -682,23 +682,19 @@ class BandStructureModel:
         if format not in {"python", "json", "wannier90"}:
             raise ValueError(
                 'supported formats are "python", "json" and "wannier90"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
-        if format == "python":
-            with open(filename, "w") as file:
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21'):
+            if format == "python":
                 assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
-                file.write(repr(self.params_complex()) + ",\\\n")
-                file.write(repr(self.neighbors) + ",\\\n")
-                file.write(repr(self.sym.S) + ",\\\n")
-                file.write(repr(self.sym.inversion) + "\n")
-        elif format == "wannier90":
-            tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
-        elif format == "json":
-            json_tb_format.save(filename, self.neighbors,
-                                self.params_complex())
-
-        # reset printoptions to what they were before
-        np.set_printoptions(**opt)
+                with open(filename, "w") as file:
+                    file.write(repr(self.params_complex()) + ",\\\n")
+                    file.write(repr(self.neighbors) + ",\\\n")
+                    file.write(repr(self.sym.S) + ",\\\n")
+                    file.write(repr(self.sym.inversion) + "\n")
+            elif format == "wannier90":
+                tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
+            elif format == "json":
+                json_tb_format.save(filename, self.neighbors,
+                                    self.params_complex())
 
     @staticmethod
     def load(filename: str, format=None, cos_reduced=False, exp=True) -> 'BandStructureModel':
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 1e499bf..4ce64ae 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -256,13 +256,10 @@ class AsymTightBindingModel:
                 raise ValueError("unrecognised format for file " + filename)
         if format not in {"json"}:
             raise ValueError('only supported format is "json"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
-        if format == "json":
-            json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
-            # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
-
-        np.set_printoptions(**opt)  # reset printoptions
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21'):
+            if format == "json":
+                json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
+                # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
 
     @staticmethod
     def load(filename: str, format=None) -> Self:
-- 
2.43.0


From 49fadb3bdb2d117b7fea978f93522915a7a0de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 008/108] fix: python format of models with more than 100000
 numbers was abbreviated

---
 src/tight_binding_redweasel/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 256dd2f..211025d 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -682,7 +682,7 @@ class BandStructureModel:
         if format not in {"python", "json", "wannier90"}:
             raise ValueError(
                 'supported formats are "python", "json" and "wannier90"')
-        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21'):
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=np.inf, legacy='1.21'):
             if format == "python":
                 assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
                 with open(filename, "w") as file:
-- 
2.43.0


From 873a2f3b7447974f8dcb8a725704f97c14357733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 009/108] fix: divide wannier90 matrix elements by the
 degeneracy of the lattice vector

H(k) is the sum over all listed lattice vectors of H(R)exp(ikR)/ndegen(R).
---
 src/tight_binding_redweasel/wannier90_tb_format.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/wannier90_tb_format.py b/src/tight_binding_redweasel/wannier90_tb_format.py
index b5e3b9d..419bc24 100644
--- a/src/tight_binding_redweasel/wannier90_tb_format.py
+++ b/src/tight_binding_redweasel/wannier90_tb_format.py
@@ -28,6 +28,7 @@ def load_tb(filename):
         # now read the hamiltonian matrices
         neighbors = []
         neighbors_set = set()
+        weights = {} # degeneracy of each lattice vector in the order of the file
         params = []
         r_params = []
         index = -1
@@ -39,6 +40,8 @@ def load_tb(filename):
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts])
                 neg_pos = tuple([-x for x in pos])
+                if pos not in weights:
+                    weights[pos] = degeneracy[len(weights)]
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
                         # skip the entry if the adjungated matrix is already in neighbors
@@ -71,9 +74,10 @@ def load_tb(filename):
                 r_params[index][i-1,j-1,2] = z
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
+    # the fourier sum runs over all listed vectors, so each of them counts 1/degeneracy
+    params = np.array(params) / np.array([weights[pos] for pos in neighbors])[:, None, None]
     # sort the neighbors by length
     neighbors = np.array(neighbors)
-    params = np.array(params)
     r_params = np.array(r_params)
     order = np.argsort(np.linalg.norm(neighbors, axis=-1))
     return neighbors[order], params[order], r_params[order], degeneracy, A
@@ -98,6 +102,7 @@ def load_hr(filename):
         # now read the hamiltonian matrices
         neighbors = []
         neighbors_set = set()
+        weights = {} # degeneracy of each lattice vector in the order of the file
         params = []
         index = -1
         for line in file:
@@ -108,6 +113,8 @@ def load_hr(filename):
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts[:3]])
                 neg_pos = tuple([-x for x in pos])
+                if pos not in weights:
+                    weights[pos] = degeneracy[len(weights)]
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
                         # skip the entry if the adjungated matrix is already in neighbors
@@ -124,9 +131,10 @@ def load_hr(filename):
                 params[index][i-1,j-1] = x + y*1j
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
+    # the fourier sum runs over all listed vectors, so each of them counts 1/degeneracy
+    params = np.array(params) / np.array([weights[pos] for pos in neighbors])[:, None, None]
     # sort the neighbors by length
     neighbors = np.array(neighbors)
-    params = np.array(params)
     order = np.argsort(np.linalg.norm(neighbors, axis=-1))
     return neighbors[order], params[order]
 
-- 
2.43.0


From 6822cf42d5e2b68df1499642e855bb7c2ffef023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 010/108] fix: shifting the energies of a model with a
 k-dependent overlap matrix

---
 src/tight_binding_redweasel/tight_binding_asym.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 4ce64ae..5dbefdd 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -885,9 +885,18 @@ class AsymTightBindingModel:
             return AsymTightBindingModel(self.H + other.H, S=self.S + other.S)
         else:
             # shift the whole bandstructure
-            # TODO figure out how this actually works wih S(k)
+            # to shift the generalized eigenvalues, H(k) needs to be shifted by a multiple of S(k)
             H = self.H.copy()
-            H.H_r[0] += self.S.H_r[0] * float(other)
+            neighbor_func = try_neighbor_function(H.neighbors)
+            missing = [r for r in self.S.neighbors if neighbor_func(r)[0] is None]
+            if len(missing) > 0:
+                H.neighbors = np.concatenate([H.neighbors, missing], axis=0)
+                H.H_r = np.concatenate([H.H_r, np.zeros((len(missing),) + H.H_r.shape[1:])], axis=0)
+                neighbor_func = try_neighbor_function(H.neighbors)
+            H.H_r = H.H_r + np.zeros_like(self.S.H_r[0])  # complex if S is complex
+            for r, S_r in zip(self.S.neighbors, self.S.H_r):
+                i, mirror = neighbor_func(r)
+                H.H_r[i] += (np.conj(S_r.T) if mirror else S_r) * float(other)
             return AsymTightBindingModel(H, S=self.S.copy())
 
     def __mul__(self, fac: float) -> 'AsymTightBindingModel':
-- 
2.43.0


From b4d3c7caa2404d397a295891de702924617ae077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 011/108] fix: reject the sum of band structure models with
 different coefficient symmetries

---
 src/tight_binding_redweasel/bandstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 211025d..f77e399 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -889,6 +889,7 @@ class BandStructureModel:
             assert self.exp == other.exp, "Bandstructure needs to be of the same type (exp is different)"
             assert self.neighbors is not None
             assert other.neighbors is not None
+            assert self.sym == other.sym, "Bandstructure needs to be of the same type (symmetry of the coefficients is different)"
             assert np.linalg.norm(self.neighbors - other.neighbors) < 1e-8, "Bandstructure needs to be of the same type (neighbors are different)"
             res = self.copy()
             res.params = direct_sum(self.params, other.params)
-- 
2.43.0


From f28ddd0fb44c5534afae06244ae009cdf3af596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 012/108] fix: supercells with negative entries or negative
 determinant, supercells of BandStructureModel

---
 src/tight_binding_redweasel/bandstructure.py      | 6 +++---
 src/tight_binding_redweasel/tight_binding_asym.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index f77e399..ed1aedb 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -844,8 +844,8 @@ class BandStructureModel:
         matrix = np.linalg.inv(A_original) @ A_new
         assert np.all(np.abs(np.round(matrix) - matrix) <
                       1e-7), "The supercell matrix must be integer valued"
-        matrix = np.round(matrix)
-        det = round(np.linalg.det(matrix))
+        matrix = np.round(matrix).astype(np.int64)
+        det = abs(round(np.linalg.det(matrix)))
         assert self.sym is None or len(
             self.sym) == 1, "No symmetries of the coefficients are allowed for this operation"
         new_neighbors = self.neighbors @ matrix.T
@@ -859,7 +859,7 @@ class BandStructureModel:
         bounding_box = np.min(box, axis=0), np.max(box, axis=0)
         assert np.array(bounding_box).dtype == np.int64
         # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d])
+        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1)
                        for d in range(dim)]), axis=-1).reshape(-1, dim)
         p_box = box @ np.linalg.inv(matrix).T
         # internal positions + origin (0)
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 5dbefdd..4ef7048 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -850,7 +850,7 @@ class AsymTightBindingModel:
         matrix = np.linalg.inv(A_original) @ A_new
         assert np.all(np.abs(np.round(matrix) - matrix) < 1e-7), "The supercell matrix must be integer valued"
         matrix = np.round(matrix).astype(np.int64)
-        det = round(np.linalg.det(matrix))
+        det = abs(round(np.linalg.det(matrix)))
         new_neighbors = self.H.neighbors @ matrix.T
         n = len(self.H.H_r[0])
         new_band_count = n * det
@@ -862,7 +862,7 @@ class AsymTightBindingModel:
         bounding_box = np.min(box, axis=0), np.max(box, axis=0)
         assert np.array(bounding_box).dtype == np.int64
         # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d]) for d in range(dim)]), axis=-1).reshape(-1, dim)
+        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1) for d in range(dim)]), axis=-1).reshape(-1, dim)
         p_box = box @ np.linalg.inv(matrix).T
         # internal positions + origin (0)
         internal_positions = list(p_box[np.all((p_box >= 0-1e-7) & (p_box < 1-1e-7), axis=1)] @ A_new.T)
-- 
2.43.0


From ba00323d3774d690c72827368d378e2aec1bfddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 013/108] fix: lattice vectors of non diagonal supercells of a
 non orthogonal lattice

---
 src/tight_binding_redweasel/bandstructure.py      | 3 ++-
 src/tight_binding_redweasel/tight_binding_asym.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ed1aedb..a91fd4e 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -848,7 +848,8 @@ class BandStructureModel:
         det = abs(round(np.linalg.det(matrix)))
         assert self.sym is None or len(
             self.sym) == 1, "No symmetries of the coefficients are allowed for this operation"
-        new_neighbors = self.neighbors @ matrix.T
+        # neighbors are real space vectors, so they are multiplied by A_new A_original^-1, which is matrix only for A_original = 1
+        new_neighbors = self.neighbors @ (A_new @ np.linalg.inv(A_original)).T
         n = len(self.params[0])
         new_band_count = n * det
         params = self.params_complex()
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 4ef7048..54f45fc 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -851,7 +851,8 @@ class AsymTightBindingModel:
         assert np.all(np.abs(np.round(matrix) - matrix) < 1e-7), "The supercell matrix must be integer valued"
         matrix = np.round(matrix).astype(np.int64)
         det = abs(round(np.linalg.det(matrix)))
-        new_neighbors = self.H.neighbors @ matrix.T
+        # neighbors are real space vectors, so they are multiplied by A_new A_original^-1, which is matrix only for A_original = 1
+        new_neighbors = self.H.neighbors @ (A_new @ np.linalg.inv(A_original)).T
         n = len(self.H.H_r[0])
         new_band_count = n * det
         H_r = self.params_complex()
-- 
2.43.0


From ee35f4bcb2c6dced08b13df7b4dace05a0443795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 014/108] fix: keep all couplings in a supercell

---
 src/tight_binding_redweasel/bandstructure.py      | 9 ++++++++-
 src/tight_binding_redweasel/tight_binding_asym.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index a91fd4e..6bf0413 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -867,8 +867,15 @@ class BandStructureModel:
         internal_positions = list(
             p_box[np.all((p_box >= 0 - 1e-7) & (p_box < 1 - 1e-7), axis=1)] @ A_new.T)
         assert len(internal_positions) == det
+        # every supercell, which is reached by one of the couplings, is needed as a neighbor
+        A_inv = np.linalg.inv(A_new)
+        for r in np.concatenate([self.neighbors, -self.neighbors]):
+            for pi in internal_positions:
+                nk = A_new @ np.floor(A_inv @ (pi + r) + 1e-7)
+                if try_neighbor_function(new_neighbors)(nk)[0] is None:
+                    new_neighbors = np.concatenate([new_neighbors, [nk]])
         # now build the new hamiltonian
-        H_r = np.zeros((len(params), new_band_count,
+        H_r = np.zeros((len(new_neighbors), new_band_count,
                        new_band_count), dtype=np.complex128)
         neighbor_func = try_neighbor_function(self.neighbors)
         for k, nk in enumerate(new_neighbors):
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 54f45fc..5d1fc31 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -868,8 +868,15 @@ class AsymTightBindingModel:
         # internal positions + origin (0)
         internal_positions = list(p_box[np.all((p_box >= 0-1e-7) & (p_box < 1-1e-7), axis=1)] @ A_new.T)
         assert len(internal_positions) == det
+        # every supercell, which is reached by one of the couplings, is needed as a neighbor
+        A_inv = np.linalg.inv(A_new)
+        for r in np.concatenate([self.H.neighbors, -self.H.neighbors]):
+            for pi in internal_positions:
+                nk = A_new @ np.floor(A_inv @ (pi + r) + 1e-7)
+                if try_neighbor_function(new_neighbors)(nk)[0] is None:
+                    new_neighbors = np.concatenate([new_neighbors, [nk]])
         # now build the new hamiltonian
-        H_r2 = np.zeros((len(H_r), new_band_count, new_band_count), dtype=np.complex128)
+        H_r2 = np.zeros((len(new_neighbors), new_band_count, new_band_count), dtype=np.complex128)
         neighbor_func = try_neighbor_function(self.H.neighbors)
         for k, nk in enumerate(new_neighbors):
             for i, pi in enumerate(internal_positions):
-- 
2.43.0


From 2a09cf077da0c04f010284c5e50f7c6a73564c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 015/108] fix: keep the overlap matrix in a supercell

---
 src/tight_binding_redweasel/tight_binding_asym.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 5d1fc31..3e4a459 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -884,7 +884,11 @@ class AsymTightBindingModel:
                     m, mirror = neighbor_func(nk + pj - pi)
                     if m is not None:
                         H_r2[k, i*n:(i+1)*n, j*n:(j+1)*n] = H_r[m] if not mirror else np.conj(H_r[m].T)
-        model = AsymTightBindingModel(HermitianFourierSeries(new_neighbors, H_r2))
+        S = None
+        if len(self.S.neighbors) > 1 or np.any(self.S.H_r[0] != np.eye(n)):
+            # the overlap matrix gets the same treatment
+            S = AsymTightBindingModel(self.S).supercell(A_original, A_new).H
+        model = AsymTightBindingModel(HermitianFourierSeries(new_neighbors, H_r2), S)
         return model
 
     def __add__(self, other) -> 'AsymTightBindingModel':
-- 
2.43.0


From e30178bbc16c618446f02c562c1548ab6104d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 016/108] fix: neighbors per direction in the free electron
 model of anisotropic lattices

---
 src/tight_binding_redweasel/tight_binding_asym.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 3e4a459..5abeadb 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -949,7 +949,9 @@ def free_electron_model_orthogonal(a: float, b: float, c: float, neighbor_count:
     model2 = model.supercell(np.diag([a, b, c]), np.diag([a, b, c])*bands_per_direction)
     model2.H.neighbors /= bands_per_direction
     model2 *= bands_per_direction**2
-    model2.H.limit_neighbor_count(neighbor_count * 3 + 1)
+    # keep neighbor_count terms in each direction
+    keep = np.linalg.norm(model2.H.neighbors / [a, b, c], axis=-1) <= neighbor_count + 1e-8
+    model2.H = HermitianFourierSeries(model2.H.neighbors[keep], model2.H.H_r[keep])
 
     eV_unit = 3.80998211 * (2*np.pi)**2 # hbar^2/m_e/2 / (1Å)^2 / 1eV * (2pi)^2
     return model2, eV_unit
-- 
2.43.0


From 3e783d9a83e4c2982b957cd0deb4d87948412de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 017/108] fix: shape of the hessians of FreeElectrons

---
 src/tight_binding_redweasel/bulk_properties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 3751b84..898630c 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -498,10 +498,11 @@ class FreeElectrons:
         k_smpl = np.asarray(k_smpl)[:, :, None] - self.k_neighbors[None, :, :]
         bands = np.linalg.norm(k_smpl, axis=-2)**2
         grad = 2 * k_smpl
-        hess = np.array([np.eye(3) * 2] * len(self.k_neighbors[0])).T
         order = np.argsort(bands, axis=-1)
         if self.limit_count:
             order = order[:, :self.limit_count]
         bands = np.take_along_axis(bands, order, axis=-1)
         grad = np.take_along_axis(grad, order[:, None, :], axis=-1)
-        return self.fac * bands, self.fac * grad, self.fac * hess[None, ...]
+        # the hessian is the same for every band at every k
+        hess = np.broadcast_to(2 * np.eye(grad.shape[1])[None, :, :, None], (len(grad), grad.shape[1]) + grad.shape[1:])
+        return self.fac * bands, self.fac * grad, self.fac * hess
-- 
2.43.0


From b79dc56433e520414cfa047494495dfe61903f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 018/108] fix: do not count inversion twice in symmetry groups
 of even dimension

---
 src/tight_binding_redweasel/symmetry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5b9a707..b873156 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -97,6 +97,7 @@ class Symmetry:
                 # here inversion can be a problem, as it may be in the center, but it's not always a normal subgroup!
                 # for now, disable the inversion symmetry reduction in even dimensions.
                 pass
+            self.inversion = len(self.S[0]) % 2 == 1
         elif inversion and len(self.S[0]) % 2 == 0:
             # realize inversion in even dimensions
             self.S = np.concatenate([self.S, -self.S], axis=0)
-- 
2.43.0


From 9d3fe7b451a233f4842ff64abe43b3f7fe2d6564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 019/108] fix: compare symmetry groups by all their operations

---
 src/tight_binding_redweasel/symmetry.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index b873156..0866900 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -135,11 +135,9 @@ class Symmetry:
     def __eq__(self, other: 'Symmetry') -> bool:
         if self.dim() != other.dim():
             return False
-        if self.inversion != other.inversion:
-            return False
         if len(self) != len(other):
             return False
-        return pointcloud_distance(self.S, other.S) < len(self.S) * 1e-7
+        return pointcloud_distance(self.get_symmetry_operations(), other.get_symmetry_operations()) < len(self) * 1e-7
 
     def __len__(self) -> int:
         """Cardinality of the group (including inversion symmetry if present!)"""
-- 
2.43.0


From c5b6c9231d71680e3af2dec13b0a19673d48da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 020/108] fix: find subgroups that contain operations combined
 with inversion

---
 src/tight_binding_redweasel/symmetry.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 0866900..a9ff8f4 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -959,11 +959,10 @@ class Symmetry:
         # Lagranges Theorem says the subgroup size must divide the group size
         if len(self) % len(other) != 0:
             return False
-        if other.inversion and not self.inversion:
-            return False
         # now check if all matrices of other are contained in self
-        for s in other.S:
-            if not np.any(np.linalg.norm(s[None] - self.S, axis=(1, 2)) < 1e-7):
+        S = self.get_symmetry_operations()
+        for s in other.get_symmetry_operations():
+            if not np.any(np.linalg.norm(s[None] - S, axis=(1, 2)) < 1e-7):
                 return False
         return True
 
-- 
2.43.0


From c37808fc55bf195b1a72bc3f041100b913afe47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 021/108] fix: keep operations combined with inversion in a
 subgroup

---
 src/tight_binding_redweasel/symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index a9ff8f4..e26ca28 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -906,10 +906,10 @@ class Symmetry:
         """
         value = invariant_func(self.S[0])
         S = [np.array(self.S[0])]
-        for s in self.S[1:]:
+        for s in self.get_symmetry_operations()[1:]:
             if np.linalg.norm(invariant_func(s) - value) < 1e-8:
                 S.append(s)
-        sym = Symmetry(S, abs(invariant_func(-self.S[0]) - value) < 1e-8 if self.inversion else False)
+        sym = Symmetry(S, False, self.projective)
         assert sym.check(), "The subgroup is not closed, therefore the function was not a class function or the original group was not closed"
         return sym
 
-- 
2.43.0


From ac6af0df2d847636eb56334f99ce453805aa5448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 022/108] fix: detect inversion in the strict point group of a
 space group

---
 src/tight_binding_redweasel/symmetry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index e26ca28..cb88742 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -938,8 +938,7 @@ class Symmetry:
         """
         assert self.projective, "no translational symmetries included"
         sym = self.subgroup(lambda s: np.linalg.norm(s[:-1, -1]) + np.linalg.norm(s[-1, :-1]))
-        sym.S = np.array(sym.S[:, :-1, :-1])
-        return sym
+        return Symmetry(sym.S[:, :-1, :-1])
 
     def ignore_translation(self) -> 'Symmetry':
         """Get a symmetry without translational component,
-- 
2.43.0


From f24eb5b0cc4b9dec883a6f3fada7e4527e822ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 023/108] fix: basis transform of space groups in other
 dimensions than 3

---
 src/tight_binding_redweasel/symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index cb88742..de34184 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -223,8 +223,8 @@ class Symmetry:
         """
         if self.projective:
             assert np.shape(basis_transform) == (self.dim() - 1,) * 2, "basis_transform needs to be a square matrix with matching dimension"
-            # TODO test!
-            basis_transform = np.block([[basis_transform, np.zeros((3, 1))], [np.zeros((1, 3)), np.eye(1)]])
+            n = self.dim() - 1
+            basis_transform = np.block([[basis_transform, np.zeros((n, 1))], [np.zeros((1, n)), np.eye(1)]])
         else:
             assert np.shape(basis_transform) == (self.dim(),) * 2, "basis_transform needs to be a square matrix with matching dimension"
         S = np.einsum("nij,mi,jk->nmk", self.S,
-- 
2.43.0


From 3e4691018f132773b400fe6e7f3face65b8b38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 024/108] fix: check the normal subgroup of a factor group,
 with inversion

---
 src/tight_binding_redweasel/symmetry.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index de34184..68a2461 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -974,17 +974,18 @@ class Symmetry:
     def __truediv__(self, rhs: 'Symmetry') -> 'Symmetry':
         assert self.dim() == rhs.dim()
         d = self.dim()
-        assert (self.inversion or not rhs.inversion) and len(self.S) % len(
-            rhs.S) == 0, "The righthand side needs to be a subgroup"
-        # TODO check subgroup
+        assert rhs in self, "The righthand side needs to be a subgroup"
+        rhs_S = rhs.get_symmetry_operations()
+        # check that rhs is a normal subgroup
+        for s in self.S:
+            for r in s @ rhs_S @ np.linalg.inv(s):
+                if not np.any(np.linalg.norm(r[None] - rhs_S, axis=(1, 2)) < 1e-7):
+                    raise ValueError("The righthand side is no normal subgroup")
 
         def left(a, b):
             # to check a*rhs1=b*rhs2, check a^{-1}*b in rhs
             c = np.linalg.inv(a) @ b
-            for r in rhs.S:
-                if np.linalg.norm(r - c) < 1e-7:
-                    return True
-            return False
+            return np.any(np.linalg.norm(c[None] - rhs_S, axis=(1, 2)) < 1e-7)
         classes = self.equivalence_classes(left)
         assert len(classes) == len(
             self) // len(rhs), "The number of left equivalence classes doesn't match the assumption of a normal subgroup"
-- 
2.43.0


From 7d8a2e9efd0701d6506f7e6d0ad966da18311609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 025/108] fix: element orders in the factor group of groups
 with inversion

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 68a2461..eb3fb00 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -1000,7 +1000,7 @@ class Symmetry:
                 # if more than one element reaches the identity at the same time, keep all of them in this step.
                 base = np.array(classes[i])
                 powers = np.zeros_like(base) + np.eye(d)[None, :, :]
-                for _ in range(len(self.S) + 1):  # no order bigger than the group size
+                for _ in range(len(self) + 1):  # no order bigger than the group size
                     powers = powers @ base
                     classes[i] = np.array([a for j, a in enumerate(
                         base) if np.linalg.norm(powers[j] - np.eye(d)) < 1e-7])
-- 
2.43.0


From 418edd3a0f5c62f85e58b2217115870105aad1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 026/108] fix: no inversion in the factor group by a group with
 inversion

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index eb3fb00..9ebd696 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -1034,7 +1034,7 @@ class Symmetry:
         # element to permute the identity to the first element
         id_inv = np.linalg.inv(classes[0][0])
         classes = np.array([c[0] @ id_inv for c in classes])
-        sym = Symmetry(classes, inversion=self.inversion and rhs.inversion)
+        sym = Symmetry(classes)
         if not sym.check():
             raise ValueError("The righthand side is no normal subgroup")
         return sym
-- 
2.43.0


From 99af70f3d52d94dd1265fe10cc1d248dc4b75fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 027/108] fix: find the factor group whenever it is a subgroup

---
 src/tight_binding_redweasel/symmetry.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 9ebd696..a0e1f07 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -1036,8 +1036,28 @@ class Symmetry:
         classes = np.array([c[0] @ id_inv for c in classes])
         sym = Symmetry(classes)
         if not sym.check():
-            raise ValueError("The righthand side is no normal subgroup")
+            # the selection above didn't find a group -> search systematically
+            sym = self._find_complement(rhs_S, [np.eye(d)])
+            if sym is None:
+                raise ValueError("The factor group can't be represented by elements of the group")
         return sym
 
+    def _find_complement(self, rhs_S, group):
+        """Extend `group` to a subgroup with exactly one element per coset of the normal subgroup `rhs_S`, or return None."""
+        S = self.get_symmetry_operations()
+        if len(group) * len(rhs_S) == len(S):
+            return Symmetry(group)
+        # take any coset without representative and try all its elements
+        covered = np.reshape(np.asarray(group)[:, None] @ rhs_S[None], (-1,) + S[0].shape)
+        new = next(s for s in S if np.min(np.linalg.norm(covered - s, axis=(1, 2))) > 1e-7)
+        for s in new @ rhs_S:
+            ext = Symmetry.from_generator(group + [s], False).get_symmetry_operations()
+            # only the identity is allowed in rhs_S
+            if np.sum(np.linalg.norm(ext[:, None] - rhs_S[None], axis=(2, 3)) < 1e-7) == 1:
+                sym = self._find_complement(rhs_S, list(ext))
+                if sym is not None:
+                    return sym
+        return None
+
     def __str__(self) -> str:
         return f"Symmetry(dim={self.dim()}, order={len(self)}, inversion={self.inversion}{', projective=True' if self.projective else ''})"
-- 
2.43.0


From 1bed1cb411d19c01df375d0e48409a08c94699ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 028/108] fix: keep neighbors of which only the negative
 version is given

---
 src/tight_binding_redweasel/symmetry.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index a0e1f07..b417730 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -718,8 +718,14 @@ class Symmetry:
                 new_neighbors.append((n, orig_index))
                 used_neighbors.add(tuple(n))
         # remove negative versions
-        neighbors = [(n, orig_index) for n, orig_index in new_neighbors if next(
-            (x for x in n if abs(x) > 1e-7), 1) > 0]
+        def is_positive(n):
+            return next((x for x in n if abs(x) > 1e-7), 1) > 0
+        neighbors = [(n, orig_index) for n, orig_index in new_neighbors if is_positive(n)]
+        # without inversion symmetry there can be negative versions without the positive one
+        positive = np.reshape([n for n, _ in neighbors], (len(neighbors), self.dim()))
+        for n, orig_index in new_neighbors:
+            if not is_positive(n) and not np.any(np.linalg.norm(positive + n, axis=-1) < 1e-6 * np.linalg.norm(n)):
+                neighbors.append((-n, orig_index))
         neighbors = sorted(neighbors, key=lambda ni: np.linalg.norm(ni[0]))
         order = [orig_index for _, orig_index in neighbors]
         neighbors = [n for n, _ in neighbors]
-- 
2.43.0


From 39ec2563f6651c8d2bc0912461b835c19515cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 029/108] fix: realize_symmetric in the unit cell for integer
 points

---
 src/tight_binding_redweasel/symmetry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index b417730..cbaf3db 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -562,6 +562,7 @@ class Symmetry:
         order = np.asarray(order)
         full_k = np.asarray(full_k)
         if unit_cell:
+            full_k = full_k + 0.0  # the following doesn't work for integers
             # make sure all k are inside the [-0.5, 0.5[ region
             # first restrict it to [0, 1[
             full_k %= 1.0
-- 
2.43.0


From 47590808d15bf67dbea26cee52d6dcee1711eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 030/108] fix: remove all symmetric points in
 reduce_symmetric_data

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index cbaf3db..35461be 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -686,7 +686,8 @@ class Symmetry:
                     # find all instances of k_ in reduced_k and delete them
                     j = i
                     while j < len(reduced_k):
-                        if np.linalg.norm(reduced_k[j]) > scale * 1.0001:
+                        # the sorting above only compares up to 0.01 -> allow for the whole next value
+                        if np.linalg.norm(reduced_k[j])**2 > scale**2 + 0.02:
                             break  # * this is what makes this a good algorithm
                         if np.linalg.norm(reduced_k[j] - k_) < scale * 1e-6:
                             if checked and np.linalg.norm(reduced[j] - value) > 1e-7:
-- 
2.43.0


From 85f8278741250217c472d26c532b3eb017665d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 031/108] fix: use the inversion in find_classes

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 35461be..83c1588 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -820,7 +820,7 @@ class Symmetry:
         # build the symmetry graph for the neighbor list
         for i, r in enumerate(points):
             rep_class = set()
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 r_ = s @ r
                 dist = np.linalg.norm(points - r_[None, :], axis=-1)
                 j = np.argmin(dist)
-- 
2.43.0


From 58a5df85e6b57a3adc66946272b5d7a0a1377c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 032/108] fix: use the inversion in check_symmetry

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 83c1588..0b91657 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -513,7 +513,7 @@ class Symmetry:
         r_smpl = np.random.random((50, len(self.S[0])))
         for r in r_smpl:
             values = []
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 values.append(foo(s @ r))
             if np.linalg.norm(np.std(values, axis=0)) > tolerance:
                 if verbose:
-- 
2.43.0


From d16de8005c791f6574a484e1336f57876fee80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 033/108] fix: use the inversion in Symmetry.symmetrize

---
 src/tight_binding_redweasel/symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 0b91657..2c3d652 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -851,13 +851,13 @@ class Symmetry:
         in_letters = letters[:rank[0] + rank[1]]
         out_letters = letters[-rank[0] - rank[1]:]
         einsum_str = ",".join([b + a if i < rank[0] else a + b for i, (a, b) in enumerate(zip(in_letters, out_letters))] + [in_letters]) + "->" + out_letters
-        for s in self.S:
+        for s in self.get_symmetry_operations():
             inv_s = np.linalg.inv(s)
             sign = 1
             if pseudo_tensor:
                 sign = np.sign(np.linalg.det(s))  # what happens with unitary groups where this can be from U(1)?
             res += np.einsum(einsum_str, *rank[0] * (inv_s,), *rank[1] * (s,), orig * sign, optimize="optimal")
-        res /= len(self.S)
+        res /= len(self)
         return res
 
     def equivalence_classes(self, equiv_relation: Callable[[np.ndarray, np.ndarray], bool]) -> list:
-- 
2.43.0


From a82c77299f4cdd3eac3e135a620992a07addfab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 034/108] fix: align the icosahedral group towards the x-axis
 as documented

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 2c3d652..5dc7825 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -475,7 +475,7 @@ class Symmetry:
             Self: The (full) icosahedral symmetry group
         """
         c = Symmetry.cyclic(5, inversion)
-        m = ((0, 1, 0), (-5**-.5, 0, 2 * 5**-.5), (2 * 5**-.5, 0, 5**-.5))
+        m = ((0, -5**-.5, 2 * 5**-.5), (1, 0, 0), (0, 2 * 5**-.5, 5**-.5))
         return c * c.transform(m)
 
     @staticmethod
-- 
2.43.0


From db00d60bd9fa3005764d54a8a41741eccaf9b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 035/108] fix: check_neighbors of symmetric neighbors

---
 src/tight_binding_redweasel/symmetry.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5dc7825..79a1e34 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -747,18 +747,12 @@ class Symmetry:
         assert self.dim() == 3
         # only half of the neighbor terms are present, but the symmetry is important
         neighbors = np.asarray(neighbors)
-        neighbors = neighbors[np.argsort(np.linalg.norm(neighbors, axis=-1))]
+        neighbor_func = neighbor_function(neighbors)  # raises if the neighbor isn't found
         count = [0] * len(neighbors)
-        for i, r in enumerate(neighbors):
-            for s in zip(self.S):
+        for r in neighbors:
+            for s in self.S:
                 # using transposed symmetry operations, as the whole symmetry is meant to be in k-space
-                r_ = np.transpose(s) @ r
-                # here only the neighbors with an index similar to i need to be checked
-                # TODO replace this search by the KD-Trees
-                start = max(i - len(self.S) * 3, 0)
-                end = min(i + len(self.S) * 3, len(neighbors))
-                j = start + np.argmin(np.minimum(np.linalg.norm(neighbors[start:end] - r_[None, :], axis=-1),
-                                                 np.linalg.norm(neighbors[start:end] + r_[None, :], axis=-1)))
+                j, _ = neighbor_func(np.transpose(s) @ r)
                 count[j] += 1
         for c in count:
             if c != len(self.S):
-- 
2.43.0


From 1bbab10936eb6fdf6ed2356a146028538aff1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 036/108] fix: symmetrize tensors of rank 0

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 79a1e34..ecd070b 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -843,7 +843,7 @@ class Symmetry:
         # hacky but simple...
         letters = "abcdefghijklmnopqrstuvwxyz"
         in_letters = letters[:rank[0] + rank[1]]
-        out_letters = letters[-rank[0] - rank[1]:]
+        out_letters = letters[len(letters) - rank[0] - rank[1]:]
         einsum_str = ",".join([b + a if i < rank[0] else a + b for i, (a, b) in enumerate(zip(in_letters, out_letters))] + [in_letters]) + "->" + out_letters
         for s in self.get_symmetry_operations():
             inv_s = np.linalg.inv(s)
-- 
2.43.0


From b97b1d8d3f335668ae2f14f97b9ecc889a6d0e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 037/108] fix: generate unitary representations without the
 neutral element and with non integer operations

---
 .../unitary_representations.py                       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index eca4cbb..62cad70 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -52,8 +52,9 @@ class UnitaryRepresentation:
         """
         Nk = len(S_G[0])
         N = len(U_G[0])
-        S = S_G.copy()
-        U = U_G.copy()
+        # start with the neutral element, so that all products include the generators
+        S = [np.eye(Nk), *S_G]
+        U = [np.eye(N), *U_G]
         # exponentiate the group n times to form the full group
         for _ in range(1000):
             S_new = np.array(S)
@@ -65,14 +66,15 @@ class UnitaryRepresentation:
             prev_len = len(S)
             S = {}
             for s, u in zip(S_new, U_new):
-                s_key = tuple([tuple(s_) for s_ in s])
+                # rounded, as products of non integer matrices are not exactly equal
+                s_key = tuple(np.round(s, 6).ravel() + 0.0)
                 if s_key in S:
                     # the symmetry already exists
                     # check if the U_new symmetry matches
                     u_existing = S[s_key][1]
-                    assert np.sum((u_existing - u)**2) < 1e-14
+                    assert np.sum(np.abs(u_existing - u)**2) < 1e-14
                 else:
-                    S[s_key] = (s_key, u)
+                    S[s_key] = (s, u)
             pairs = list(S.values())
             S = []
             U = []
-- 
2.43.0


From d08c8be59cea92353f5adf9f4a89003f5c0b65fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 038/108] fix: representation matrices of the inversion in even
 dimensions

---
 src/tight_binding_redweasel/unitary_representations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 62cad70..f053616 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -84,7 +84,11 @@ class UnitaryRepresentation:
             assert len(S) < 1000 # limitation to avoid endless loops
             if len(S) <= prev_len:
                 break
-        u_repr = UnitaryRepresentation(_sym.Symmetry(np.array(S), inversion), N)
+        sym = _sym.Symmetry(np.array(S), inversion)
+        if len(sym.S) == 2 * len(U):
+            # in even dimensions the inversion is part of the symmetry operations
+            U = U + [-u if negate_inversion else u for u in U]
+        u_repr = UnitaryRepresentation(sym, N)
         u_repr.inv_split = 0 if negate_inversion else N
         u_repr.U = np.array(U)
         return u_repr
-- 
2.43.0


From 323b1b4efe43a809c8648d3ef6ec92663ff341f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 039/108] fix: product of two unitary representations

---
 src/tight_binding_redweasel/unitary_representations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index f053616..fb2d314 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -508,8 +508,7 @@ class UnitaryRepresentation:
             # this is only supported if one of the representations has inv_split at 0 or dim.
             if rhs.inv_split == 0 or rhs.inv_split == rhs.dim():
                 # case 1: kron is ordered correctly
-                for i in range(len(res)):
-                    res.U[i] = np.kron(self.U[i], res.U[i])
+                res.U = np.array([np.kron(u1, u2) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split = self.inv_split * rhs.dim()
                 if rhs.inv_split == 0:
                     # flip inversion symmetry if self has it
@@ -518,8 +517,7 @@ class UnitaryRepresentation:
             elif self.inv_split == 0 or self.inv_split == self.dim():
                 # case 2: kron is flipped
                 # TODO make the kron in linalg do this loop correctly and generally
-                for i in range(len(res)):
-                    res.U[i] = np.kron(res.U[i], self.U[i])
+                res.U = np.array([np.kron(u2, u1) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split *= self.dim()
                 if self.inv_split == 0:
                     # flip inversion symmetry if self has it
-- 
2.43.0


From 01f90406e5b8346164c9cf4666d9109a88699941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 040/108] fix: symmetrize matrices for groups with inversion
 only

---
 src/tight_binding_redweasel/unitary_representations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index fb2d314..5a3d0e1 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -185,7 +185,7 @@ class UnitaryRepresentation:
         Returns:
             arraylike(N_r, dim, dim): The changed H_r, which respects the symmetry.
         """
-        if len(self.U) <= 1:
+        if len(self.U) <= 1 and not self.sym.inversion:
             return H_r # do nothing if self.U is empty, which stands for all U being the unit matrix
         result = np.zeros_like(H_r) # all U_S are real, so no worries about type here
         # add up all symmetries
@@ -250,7 +250,7 @@ class UnitaryRepresentation:
         Returns:
             function: A function which takes a `H_r` and returns the symmetrized version, just like `self.symmetrize` would.
         """
-        if len(self.U) <= 1:
+        if len(self.U) <= 1 and not self.sym.inversion:
             return lambda x: x # do nothing if self.U is empty, which stands for all U being the unit matrix
         assert len(self.sym.S) == len(self.U)
         neighbor_func = _sym.neighbor_function(neighbors)
-- 
2.43.0


From 621522f3c3a7d813319b446394b15843e3c9ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 041/108] fix: UnitaryRepresentation.symmetrizer without
 inversion or without neighbors

---
 .../unitary_representations.py                       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 5a3d0e1..6c1f837 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -295,13 +295,13 @@ class UnitaryRepresentation:
                 raise ValueError("neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers " + str(count))
         # task_list_r0 should only contain one index, so check that and simplify
         task_list_r0 = tuple(np.reshape(task_list_r0, (-1, 3)).T)
-        assert np.all(task_list_r0[0] == task_list_r0[1]) and np.all(task_list_r0[0][0] == task_list_r0[0])
-        r0_index = task_list_r0[0][0] if len(task_list_r0) else None
+        assert np.all(task_list_r0[0] == task_list_r0[1]) and np.all(task_list_r0[0][:1] == task_list_r0[0])
+        r0_index = task_list_r0[0][0] if len(task_list_r0[0]) else None
         # the rest can stay as is, just numpyify them
-        task_list_rinv = np.reshape(task_list_rinv, (-1, 3))
-        task_list_rinv = tuple(task_list_rinv[np.array([i in classes for i in task_list_rinv[:,0]])].T)
-        task_list_r = np.reshape(task_list_r, (-1, 3))
-        task_list_r = tuple(task_list_r[np.array([i in classes for i in task_list_r[:,0]])].T)
+        task_list_rinv = np.reshape(np.array(task_list_rinv, dtype=np.int64), (-1, 3))
+        task_list_rinv = tuple(task_list_rinv[np.array([i in classes for i in task_list_rinv[:,0]], dtype=bool)].T)
+        task_list_r = np.reshape(np.array(task_list_r, dtype=np.int64), (-1, 3))
+        task_list_r = tuple(task_list_r[np.array([i in classes for i in task_list_r[:,0]], dtype=bool)].T)
         class_copy = []
         class_invcopy = []
         for i, class_other in classes.items():
-- 
2.43.0


From 4b736f206f0ddb5b9de34cb12164bb36d70f8763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 042/108] fix: UnitaryRepresentation.check_symmetry checks
 random points

---
 src/tight_binding_redweasel/unitary_representations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 6c1f837..0f2126f 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -429,7 +429,6 @@ class UnitaryRepresentation:
         """
         # random sample points
         k_smpl = np.random.random((50, len(self.sym.S[0])))
-        k_smpl = ((0.0, 0.5, 0.0),)
         for k in k_smpl:
             values = []
             for s, u in zip(self.sym.S, self.U):
-- 
2.43.0


From 433ab76593f7503f1ee65ff916ea1cef77abae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 043/108] fix: UnitaryRepresentation.check_symmetry includes
 the inversion

---
 src/tight_binding_redweasel/unitary_representations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 0f2126f..ce4cd45 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -433,12 +433,14 @@ class UnitaryRepresentation:
             values = []
             for s, u in zip(self.sym.S, self.U):
                 values.append(np.conj(u.T) @ hamilton([s @ k])[0] @ u)
+                if self.sym.inversion:
+                    inv_u = u * np.where(np.arange(len(u)) < self.inv_split, 1, -1)
+                    values.append(np.conj(inv_u.T) @ hamilton([-(s @ k)])[0] @ inv_u)
             if np.linalg.norm(np.std(values, axis=0)) > 1e-7:
                 print("symmetry error")
                 #print(np.std(values, axis=0))
                 print((np.std(values, axis=0) > 1e-7).astype(np.int8)) # patterns more clear
                 return False
-        # TODO check inversion symmetry
         return True
     
     def subspaces(self):
-- 
2.43.0


From 99a927bd3cda08de733c434bce697b372aaedee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 044/108] fix: HamiltonianSymmetry.copy

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index cbb4012..b9abbc6 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -58,8 +58,7 @@ class HamiltonianSymmetry:
         return sum((u.dim() for u in self.U))
     
     def copy(self) -> Self:
-        u_repr = HamiltonianSymmetry(self.sym.copy(), 1)
-        u_repr.inv = np.array(self.inv)
+        u_repr = HamiltonianSymmetry(self.sym.copy())
         u_repr.U = [u.copy() for u in self.U]
         u_repr.pos = [x.copy() for x in self.pos]
         u_repr.names = self.names.copy()
-- 
2.43.0


From b56f87210537f4ebf08fcbd949e064e20482179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 045/108] fix: phase and inversion in HamiltonianSymmetry.apply

---
 .../hamiltonian_symmetry.py                   | 33 +++++++------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index b9abbc6..22f41ee 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -24,7 +24,7 @@ class HamiltonianSymmetry:
     There is an additional phase added to each individual unitary representation.
     The total symmetry can be expressed as:
 
-    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πi((S^T)^{-1} k - k)(r_1-r_2))`
 
     In solid state physics, the most important example for this
     is the **system hamiltonian**, which gives the class its name.
@@ -240,7 +240,7 @@ class HamiltonianSymmetry:
         """Apply the unitary transformation for one symmetry operation
         at the given k-point to the hermitian operator to get
 
-        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πi((S^T)^{-1} k - k)(r_1-r_2))`
 
         Args:
             k (arraylike): The spacial point
@@ -250,32 +250,23 @@ class HamiltonianSymmetry:
                                         (not covered by the index alone). Defaults to False.
 
         Returns:
-            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(ik(1+S)(r_1-r_2))`
+            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(2πi((S^T)^{-1} k - k)(r_1-r_2))`
         """
-        # apply inversion first, as that is the simple part
-        hamiltonian_inv = np.array(hamiltonian)
-        n1 = 0
-        for u1, r1 in zip(self.U, self.pos):
-            d1 = u1.dim()
-            u1 = 1 if u1.inv_split > 0 else -1
-            if u1 < 0:
-                # TODO use r1 !?!
-                hamiltonian_inv[n1:n1+d1,:] *= -1
-                hamiltonian_inv[:,n1:n1+d1] *= -1
-        # now apply the symmetry operation
-        result = np.zeros_like(hamiltonian)
-        s = self.sym.S[s_index]
+        k = np.asarray(k)
+        hamiltonian = np.asarray(hamiltonian)
+        # the shift of the k-point gives the phase
+        dk = np.linalg.inv(self.sym.S[s_index]).T @ k * (-1 if inversion else 1) - k
+        result = np.zeros(hamiltonian.shape, dtype=np.complex128)
         n1 = 0
         for u1, r1 in zip(self.U, self.pos):
             d1 = u1.dim()
             n2 = 0
             for u2, r2 in zip(self.U, self.pos):
                 d2 = u2.dim()
-                u1_ = u1.U[s_index]
-                u2_ = u2.U[s_index]
-                fac = np.exp(2j*np.pi * k @ (r1 - s @ r2)) # TODO check again!
-                fac *= np.exp(-2j*np.pi * k @ (r2 - s @ r1))
-                result[n1:n1+d1,n2:n2+d2] += fac * u1_ @ hamiltonian_inv[n1:n1+d1,n2:n2+d2] @ np.conj(u2_.T)
+                fac = np.exp(2j*np.pi * (dk @ (r1 - r2)))
+                if inversion and (u1.inv_split > 0) != (u2.inv_split > 0):
+                    fac = -fac
+                result[n1:n1+d1,n2:n2+d2] = fac * (u1.U[s_index] @ hamiltonian[n1:n1+d1,n2:n2+d2] @ np.conj(u2.U[s_index].T))
                 n2 += d2
             n1 += d1
         return result
-- 
2.43.0


From bcecc8faff16552f8f6e52126d09e2dd1edf2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 046/108] fix: HamiltonianSymmetry.realize_symmetric rotates k
 like apply

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 22f41ee..3ff225f 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -531,7 +531,7 @@ class HamiltonianSymmetry:
             used_k = [k]
             for inv in [1, -1] if self.sym.inversion else [1]:
                 for s_index, s in enumerate(self.sym.S):
-                    k_ = s @ k * inv
+                    k_ = np.linalg.inv(s).T @ k * inv
                     # * this is why this algorithm is asymtotically slow
                     if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < scale * 1e-6:
                         continue
-- 
2.43.0


From 626d5467dc466946779f3ddbf3d3a5880f47c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 047/108] fix: drop couplings whose inverted symmetry image is
 missing

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 3ff225f..5afb765 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -370,6 +370,10 @@ class HamiltonianSymmetry:
                         else:
                             p = 0
                             break
+                        if self.sym.inversion and neighbor_func(-(s @ (r + r2 - r1)) - r2 + r1)[0] is None:
+                            # the inverted coupling is missing
+                            p = 0
+                            break
                     result[i,n1:n1+d1,n2:n2+d2] += p
                     n2 += d2
                 n1 += d1
@@ -452,6 +456,10 @@ class HamiltonianSymmetry:
                             # it's okay to clear here, as this step starts at 0 and includes the identity as individual step
                             s_table.clear()
                             break
+                        if self.sym.inversion and neighbor_func(-(s @ (r - r1 + r2)) + r1 - r2)[0] is None:
+                            # the inverted coupling is missing
+                            s_table.clear()
+                            break
                     if len(s_table):
                         total_table.extend([(i, k, i1, i2, j, mirror, fac) for (j, mirror, _, _), (k, fac) in s_table.items()])
         #total_table = sorted(total_table, key=lambda x: x[6] + 100 * x[5] + 10000 * x[4] + 1000000 * x[3] + 100000000 * x[2] + 10000000000 * x[1] + 10000000000 * x[0])
-- 
2.43.0


From d3b9ed2ddd661af19a7d5821a6f3f5ddbfe32887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 048/108] fix: transformation of the d_yz, d_xz, d_xy orbitals

---
 .../hamiltonian_symmetry.py                      | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 5afb765..e393021 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -186,17 +186,21 @@ class HamiltonianSymmetry:
         """Append d_yz, d_xz, d_xy orbitals in that order.
         This is a notion from solid state physics that comes from the
         symmetry of the real spherical harmonics with the same name.
-        The symmetry of these function is same as that of p-orbitals,
-        but without the negative sign on inversion.
-        As such this works for any symmetry group.
+        These functions transform like the products of two different coordinates.
 
         Args:
             pos (arraylike): the position used for the added phase.
             name (str, optional): a name that is just used for annotation. Defaults to empty string.
+
+        Raises:
+            ValueError: If the symmetry mixes these orbitals with others.
         """
-        urepr = _urep.UnitaryRepresentation(self.sym, self.sym.dim())
-        urepr.U = self.sym.S / np.linalg.det(self.sym.S)[:,None,None]
-        urepr.inv_split = urepr.dim() # don't use -1 on inversion
+        pairs = [(i, j) for i in range(self.sym.dim()) for j in range(i+1, self.sym.dim())][::-1]
+        S = np.asarray(self.sym.S)
+        urepr = _urep.UnitaryRepresentation(self.sym, len(pairs))
+        urepr.U = np.array([[S[:,a,c]*S[:,b,d] + S[:,a,d]*S[:,b,c] for c, d in pairs] for a, b in pairs]).transpose(2, 0, 1)
+        if not np.allclose(urepr.U @ np.swapaxes(urepr.U, -1, -2), np.eye(len(pairs))):
+            raise ValueError("these d-orbitals are not closed under the symmetry")
         self.append(urepr, pos, name)
 
     def append_diamond_d3(self, pos, name: str):
-- 
2.43.0


From aebdabfecc537e72711eaa7029be1acc6f79baa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 049/108] fix: volumes of cells with left-handed lattice
 vectors

---
 src/tight_binding_redweasel/bulk_properties.py     | 10 +++++-----
 src/tight_binding_redweasel/density_of_states.py   |  2 +-
 src/tight_binding_redweasel/qespresso_interface.py |  2 +-
 src/tight_binding_redweasel/smearing.py            |  2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 898630c..500854c 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -374,7 +374,7 @@ class KIntegral:
         Returns:
             (ndarray[max_a+1, N_T, N_d, N_d]): (L^(0), L^(1), L^(2)). Results L^(0) in 1/(Ohm*m)/s, L^(1) in J/C/(Ohm*m)/s, L^(2) in (J/C)^2/(Ohm*m)/s.
         """
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
@@ -386,7 +386,7 @@ class KIntegral:
 
     # conductivity divided by the electron scattering time tau. Assuming constant tau. Result in 1/(Ohm*m*s)
     def drude_factor(self, A: np.ndarray, spin_factor=2):
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, _k: v[:, None, :] * v[:, :, None], hessians=False)[0]
         D = spin_factor * elementary_charge**2 * I / eV / V_EZ
         return D  # result is in 1/(Ohm*m)/s
@@ -407,7 +407,7 @@ class KIntegral:
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # Somehow their units don't match the expected result unit, so I removed the division by the speed of light to make it work.
         # I canceled one e from sigma_xx with e^2 from sigma_xyz
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         # sigma_xyz = elementary_charge/c/eV * self.integrate_df_A(A, lambda _e, v, h, _k: (v[:,0]**2*h[:,1,1] - v[:,0]*v[:,1]*h[:,1,0]), hessians=True)
         I = self.integrate_df_A(A, lambda _e, v, h, _k: (v[:, 0]**2 * h[:, 1, 1] - v[:, 0] * v[:, 1] * h[:, 1, 0]), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: v[:, 0]**2, hessians=False)[0]
@@ -421,7 +421,7 @@ class KIntegral:
         # PhysRevB.45.10886 Hall effect formula with constant relaxation time over k.
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # I canceled one e from sigma_0 with e^2 from sigma_H
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, h, _k: np.einsum("ni,nij,nj->n", v, h, v) - np.einsum("nj,nj,nii->n", v, v, h), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: (v**2).sum(-1), hessians=False)[0]
         sigma_H = elementary_charge / eV * spin_factor / 6 * I
@@ -450,7 +450,7 @@ class KIntegral:
         """
         # From the book "C. Hurd, The Hall Coeffcient of Metals and Alloys (Plenum, New York, 1972)"
         # Assuming constant relaxation time for now -> independent of it
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 9c2eb21..0649704 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -771,7 +771,7 @@ class DensityOfStates:
             # HACK: scale up the weights to fill the entire briloun zone.
             # The assumption here is, that if the k_range is anything but [-0.5,0.5]^3,
             # then that is, because the other parts are equal and can be reproduced by symmetry
-            w *= np.linalg.det(self.A) / self.crystal_volume
+            w *= abs(np.linalg.det(self.A)) / self.crystal_volume
             if improved_points:
                 if "bands_grad" in dir(self.model):
                     # if available, evaluate the model with bands and exact gradients (way more precise!)
diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index f157566..fdda4ef 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -401,7 +401,7 @@ class QECrystal:
         Returns:
             float: mass density in kg/m^3
         """
-        return self._mass_per_cell() / np.linalg.det(self.lattice_vectors_in_m())
+        return self._mass_per_cell() / abs(np.linalg.det(self.lattice_vectors_in_m()))
 
     def scale_to_density(self, density: float):
         """Scale the basis to match a given density.
diff --git a/src/tight_binding_redweasel/smearing.py b/src/tight_binding_redweasel/smearing.py
index 8e5bcbd..6ccf5a0 100644
--- a/src/tight_binding_redweasel/smearing.py
+++ b/src/tight_binding_redweasel/smearing.py
@@ -490,7 +490,7 @@ class SphereSmearing(SmearingMethod):
             # gradients are in k_space, we want them to remain there,
             # as the lattice is assumed to be well spaced in reciprocal space.
             # that means the total volume is not 1, but np.linalg.det(B).
-            volume = np.linalg.det(B)
+            volume = abs(np.linalg.det(B))
             cell_volume = volume / len(positions[...,0].flat)
             # to counteract that, one can scale the gradients
             self.grads = np.moveaxis(grads, -1, 0) * cell_volume**(1/3)
-- 
2.43.0


From 0cb161536c7e6553d037de94c3d1ab2f7bb631be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 050/108] fix: energy of completely filled bands

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 0649704..15b8b15 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -610,7 +610,7 @@ class DensityOfStates:
                 # Romberg extrapolation with just one more step -> ~ Simpson rule.
                 # this assumes that the density is continuous, which is the case for 3D bandstructures.
                 int2 = np.sum((states[:-2:2] + states[2::2])/2 * (e_smpl[2::2] - e_smpl[:-2:2]))
-                energy += mu * states[-1] - (int1 + (int1 - int2)/(4 - 1))
+                energy += min(max_e, mu) * states[-1] - (int1 + (int1 - int2)/(4 - 1))
         # TODO allow more than one T to be used!
         if T <= 0.0:
             # this part is pretty well convergent
-- 
2.43.0


From 6f609eceda6a8a70a17b262a7ec835f679f92bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 051/108] fix: chemical potential of insulators at low
 temperature

---
 src/tight_binding_redweasel/density_of_states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 15b8b15..cbe7794 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -128,6 +128,8 @@ def secant(y, f, a, b, tol=1e-16, max_i=100):
     """
     fa = f(a) - y
     fb = f(b) - y
+    if fa == 0 or fa == fb:
+        return a  # already the solution, or f is too flat to find a better one
     for i in range(max_i):
         x = (a * fb - b * fa) / (fb - fa)
         if a == x or b == x:
-- 
2.43.0


From 5d220efc23b6610ec15200baecad6aa91cedc9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 052/108] fix: sign of the right extrapolation in convolve_ddf

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index cbe7794..2bd6265 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -112,7 +112,7 @@ def convolve_ddf(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ex
     if extrapolation == 'flat':
         if extrapolation_point is None:
             s += df(x - energy_smpl[0]) * states[..., 0]
-            s += df(energy_smpl[-1] - x) * states[..., -1]
+            s -= df(energy_smpl[-1] - x) * states[..., -1]
         else:
             # assume N(mu) starts at 0 and ends at N(extrapolation_point[0]) = extrapolation_point[1]
             s += df(extrapolation_point[0] - x) * extrapolation_point[1]
-- 
2.43.0


From 252e189032d3e445b13ed0794a572fe5030c957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 053/108] fix: sign of the extrapolation point in convolve_ddf

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 2bd6265..36c2fc4 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -115,7 +115,7 @@ def convolve_ddf(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ex
             s -= df(energy_smpl[-1] - x) * states[..., -1]
         else:
             # assume N(mu) starts at 0 and ends at N(extrapolation_point[0]) = extrapolation_point[1]
-            s += df(extrapolation_point[0] - x) * extrapolation_point[1]
+            s -= df(extrapolation_point[0] - x) * extrapolation_point[1]
     return s
 
 
-- 
2.43.0


From 16cc12911f767458c9172c99c08ee5c06b6e3a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 054/108] fix: fermi energy close to band edges

---
 .../density_of_states.py                      | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 36c2fc4..2e3a966 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -489,13 +489,26 @@ class DensityOfStates:
         e_index = list(states_smpl > electrons).index(True) - 1
         fermi_energy = (electrons - states_smpl[e_index]) / (states_smpl[e_index + 1] - states_smpl[e_index]) * (e_smpl[e_index + 1] - e_smpl[e_index]) + e_smpl[e_index]
         # now do a couple newton steps to find the exact value
+        # and bisect if a step fails, e.g. because the density is 0
+        e_min, e_max = self.energy_range()
         for _ in range(maxsteps):
             states, density = self.states_density(fermi_energy)
-            # TODO handle density = 0 in metals
-            fermi_energy -= (states - electrons) / density
-            if abs((states - electrons) / density) <= tol:
+            if states == electrons:
                 return fermi_energy
-        raise ValueError(f"root search didn't converge in {maxsteps} steps. {abs((states - electrons) / density)} > {tol}.")
+            if states < electrons:
+                e_min = fermi_energy
+            else:
+                e_max = fermi_energy
+            last = fermi_energy
+            if density > 0:
+                fermi_energy -= (states - electrons) / density
+                if abs(fermi_energy - last) <= tol:
+                    return fermi_energy
+            if density <= 0 or not e_min < fermi_energy < e_max:
+                fermi_energy = (e_min + e_max) / 2
+                if abs(fermi_energy - last) <= tol:
+                    return fermi_energy
+        raise ValueError(f"root search didn't converge in {maxsteps} steps. {abs(fermi_energy - last)} > {tol}.")
 
     def bandgap(self, electrons: float) -> float:
         """Return the (already precomputed) bandgap.
-- 
2.43.0


From 6973006060322d9ab5478ffdbf5689450b680824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 055/108] fix: Newton step of fermi surface samples with
 improved weights

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 2e3a966..ca34a84 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -838,7 +838,7 @@ class DensityOfStates:
             if "bands_grad" in dir(self.model):
                 # if available, evaluate the model with bands and exact gradients (way more precise!)
                 bands, grads = self.model.bands_grad(points)
-                bands = np.take_along_axis(bands, band_indices[:, None], axis=-1)[..., 0]
+                bands = np.take_along_axis(bands, band_indices[:, None], axis=-1)[..., 0] - energy
                 grads = np.take_along_axis(grads, band_indices[:, None, None], axis=-1)[..., 0]
                 # do another newton step here for free! (Assume the gradient is constant)
                 points -= grads * (bands / (1e-20 + np.linalg.norm(grads, axis=-1)**2))[..., None]
-- 
2.43.0


From c8ec2471c02969c84f94954eafa7d7f354e492d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 056/108] fix: scale of the improved weights of fermi surface
 samples

---
 .../density_of_states.py                      | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index ca34a84..8213710 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -844,28 +844,27 @@ class DensityOfStates:
                 points -= grads * (bands / (1e-20 + np.linalg.norm(grads, axis=-1)**2))[..., None]
             else:
                 raise NotImplementedError("No implementation to get gradients from the lattice.")
-            # TODO WRONG for A != 1I
-            ax, ay, az = grads.T * self.step_sizes[:, None]  # transformed for cubes
+            # gradients and points in units of the cubes of the grid
+            cube_grads = grads @ np.linalg.inv(self.A).T * self.step_sizes
+            cube_points = points @ self.A / self.step_sizes
+            ax, ay, az = cube_grads.T
             w = np.zeros(len(weights))
             n = 2
             offsets = np.stack(np.meshgrid(*3 * [np.linspace(-0.5, 0.5, n, endpoint=False)])).reshape(-1, 3)
             for offset in offsets:
                 # compute cube indices of the shifted points
-                cube_indices = np.round(offset + points / self.step_sizes) - offset
-                # only use one point per cube, or multiple if the gradients sufficiently disagree.
+                cube_indices = np.round(offset + cube_points) - offset
+                # only use one point per cube and band, or multiple if the gradients sufficiently disagree.
                 select = np.zeros(len(cube_indices), dtype=bool)
-                select[np.unique(cube_indices, axis=0, return_index=True)[1]] = True
+                select[np.unique(np.column_stack((cube_indices, band_indices)), axis=0, return_index=True)[1]] = True
                 # compute a0 (band value at the center of the cube) assuming it's 0 at the known points
                 # TODO figure out the sign here (for weight_by_gradient=True ???)
-                a0 = np.sum(grads * self.step_sizes * (cube_indices * self.step_sizes - points), -1)[select]
-                # TODO figure out how to compute the area for cuboids instead of cubes
+                a0 = np.sum(cube_grads * (cube_indices - cube_points), -1)[select]
                 ax_, ay_, az_ = ax[select], ay[select], az[select]
-                if weight_by_gradient:
-                    w[select] += cube_cut_dvolume(a0, *cube_precomp(ax_, ay_, az_))
-                else:
-                    # TODO COM calculation is not needed
-                    w[select] += cube_cut_area_com(a0, *cube_precomp(ax_, ay_, az_), ax_, ay_, az_)[0]
-            w /= len(offsets)  # mean
+                w[select] += cube_cut_dvolume(a0, *cube_precomp(ax_, ay_, az_))
+            w *= np.prod(self.step_sizes) / self.crystal_volume / len(offsets)  # mean
+            if not weight_by_gradient:
+                w *= np.linalg.norm(grads, axis=-1)
             total_w_sum = np.sum(w)
             if normalize == 'band':
                 # TODO apply band normalisation
-- 
2.43.0


From 377679cbbf4e35979d61efe595b48c67bbc7dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 057/108] fix: normalisation of fermi surface samples with
 weight_by_gradient

---
 src/tight_binding_redweasel/density_of_states.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 8213710..c82f49a 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -805,7 +805,7 @@ class DensityOfStates:
                 # This division is in reciprocal space.
                 w /= np.linalg.norm(grads, axis=-1) + 1e-20
             if normalize == 'band':
-                w /= w_sum
+                w /= np.sum(w)
             points.extend(x)
             weights.extend(w)
             band_indices.extend([i] * len(w))
@@ -865,7 +865,6 @@ class DensityOfStates:
             w *= np.prod(self.step_sizes) / self.crystal_volume / len(offsets)  # mean
             if not weight_by_gradient:
                 w *= np.linalg.norm(grads, axis=-1)
-            total_w_sum = np.sum(w)
             if normalize == 'band':
                 # TODO apply band normalisation
                 raise NotImplementedError("band normalisation with improved_weights is currently not implemented")
@@ -873,5 +872,5 @@ class DensityOfStates:
             w = np.array(weights)
         # apply normalisation
         if normalize == 'total':
-            w /= total_w_sum
+            w /= np.sum(w)
         return points, band_indices, w, total_area
-- 
2.43.0


From 84559f7cd993b55fbeaa0e7dd7c912654bdb1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 058/108] fix: naive fermi energy off by one state

---
 src/tight_binding_redweasel/density_of_states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index c82f49a..5dc0acb 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -182,7 +182,8 @@ def int_poly(x0, x1, a, b, c):
 
 def naive_fermi_energy(bands, electrons):
     i = round(np.prod(np.shape(bands)[:-1]) * electrons)
-    return np.mean(np.sort(np.ravel(bands))[i:i + 2])
+    # middle between the last filled and the first empty state
+    return np.mean(np.sort(np.ravel(bands))[max(i - 1, 0):i + 1])
 
 
 def naive_energy(bands, mu, T, spin_factor=2):
-- 
2.43.0


From b979e2dd789e5c21027d51c7465a3791c868ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 059/108] fix: cancellation in the thermal convolution of very
 flat bands

---
 src/tight_binding_redweasel/density_of_states.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 5dc0acb..b9b56da 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -68,11 +68,12 @@ def convolve_df(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ext
         return scipy.special.log_expit(beta * e) / beta  # overflow free variant
 
     def F_diff(e0, e1):
-        return F(e1) - F(e0)
-        # return np.log(scipy.special.expit(beta*e1) + np.exp(-beta*e0)/(1 + np.exp(-beta*e1))) / beta
+        # difference quotient (F(e1) - F(e0)) / (e1 - e0), avoids cancellation in very small segments
+        small = np.abs(e1 - e0) * beta < 1e-5
+        return np.where(small, f((e0 + e1) / 2), (F(e1) - F(e0)) / np.where(small, 1, e1 - e0))
 
     def segment(x, x0, x1, y0, y1):
-        return y1 * f(x - x1) - y0 * f(x - x0) + (y1 - y0) / (x1 - x0) * F_diff(x - x0, x - x1)
+        return y1 * f(x - x1) - y0 * f(x - x0) - (y1 - y0) * F_diff(x - x0, x - x1)
     s = np.sum(segment(x, energy_smpl[..., :-1], energy_smpl[..., 1:], states[..., :-1], states[..., 1:]), axis=-1)
     # add segments/other functions as extrapolation on both side to get correct high temperature behavior
     if extrapolation == 'flat':
@@ -103,10 +104,12 @@ def convolve_ddf(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ex
         return scipy.special.expit(-beta * e)  # overflow free variant of 1 / (1 + exp(beta*e)), just to silence the warnings
 
     def f_diff(e0, e1):
-        return f(e1) - f(e0)
+        # difference quotient (f(e1) - f(e0)) / (e1 - e0), avoids cancellation in very small segments
+        small = np.abs(e1 - e0) * beta < 1e-5
+        return np.where(small, df((e0 + e1) / 2), (f(e1) - f(e0)) / np.where(small, 1, e1 - e0))
 
     def dsegment(x, x0, x1, y0, y1):
-        return y1 * df(x - x1) - y0 * df(x - x0) + (y1 - y0) / (x1 - x0) * f_diff(x - x0, x - x1)
+        return y1 * df(x - x1) - y0 * df(x - x0) - (y1 - y0) * f_diff(x - x0, x - x1)
     s = np.sum(dsegment(x, energy_smpl[..., :-1], energy_smpl[..., 1:], states[..., :-1], states[..., 1:]), axis=-1)
     # add segments/other functions as extrapolation on both side to get correct high temperature behavior
     if extrapolation == 'flat':
-- 
2.43.0


From e4fdf288b6ac29ceaa7d437710b6f31abfb398e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 060/108] fix: fermi energy in flat bands

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index b9b56da..d63ea39 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -508,7 +508,7 @@ class DensityOfStates:
                 fermi_energy -= (states - electrons) / density
                 if abs(fermi_energy - last) <= tol:
                     return fermi_energy
-            if density <= 0 or not e_min < fermi_energy < e_max:
+            if not (density > 0 and e_min < fermi_energy < e_max):
                 fermi_energy = (e_min + e_max) / 2
                 if abs(fermi_energy - last) <= tol:
                     return fermi_energy
-- 
2.43.0


From 2594303abda10d670cf0d96a27bd4d7855ad0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 061/108] fix: keep the chemical potential search in the known
 interval

---
 src/tight_binding_redweasel/density_of_states.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index d63ea39..a5e3ab8 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -133,19 +133,29 @@ def secant(y, f, a, b, tol=1e-16, max_i=100):
     fb = f(b) - y
     if fa == 0 or fa == fb:
         return a  # already the solution, or f is too flat to find a better one
+    # last points where f is too small/too big, the solution is in between
+    low, high = None, None
+    for x, val in [(a, fa), (b, fb)]:
+        low, high = (x, high) if val < 0 else (low, x)
     for i in range(max_i):
-        x = (a * fb - b * fa) / (fb - fa)
+        x = (a * fb - b * fa) / (fb - fa) if fa != fb else b
+        if low is None or high is None:
+            # don't jump far away where f is flat
+            x = min(max(x, b - 10 * abs(b - a)), b + 10 * abs(b - a))
+        elif not min(low, high) < x < max(low, high):
+            x = (low + high) / 2
         if a == x or b == x:
             return x
         val = f(x) - y
+        low, high = (x, high) if val < 0 else (low, x)
         a = b
         fa = fb
         b = x
         fb = val
-        if abs(val) < tol or fa == fb:
+        if abs(val) < tol:
             return x
     # didn't finish but here is the best available solution
-    return (a * fb - b * fa) / (fb - fa)
+    return b
 
 
 def _Li2(x):
-- 
2.43.0


From aa9dd1bc3c25f7e8ffbcd637a2961519a9172362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 062/108] fix: energy samples for a chemical potential outside
 of the bands

---
 src/tight_binding_redweasel/density_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index a5e3ab8..a50fedd 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -210,8 +210,8 @@ def naive_energy(bands, mu, T, spin_factor=2):
 def _samples(e0, e1, mu, beta, N):
     # sample a range e0 to e1 in such a way, that an integral over -df/de has equal weights for each point. (importance sampling)
     # for numerical stability, it is required to limit e0 and e1 here
-    e0 = np.maximum(mu - 30 / beta, e0)
-    e1 = np.minimum(mu + 30 / beta, e1)
+    e0 = np.clip(e0, mu - 30 / beta, mu + 30 / beta)
+    e1 = np.clip(e1, mu - 30 / beta, mu + 30 / beta)
     #return np.log(1 / (1e-16 + np.linspace(scipy.special.expit(-beta * (e0 - mu)), scipy.special.expit(-beta * (e1 - mu)), N)) - 1 + 1e-16) / beta + mu
     return -scipy.special.logit(np.concatenate([np.linspace(scipy.special.expit(-beta * (e0 - mu)), 0.5, N//2, endpoint=False), np.linspace(0.5, scipy.special.expit(-beta * (e1 - mu)), (N+1)//2)])) / beta + mu
 
-- 
2.43.0


From ce9abf1c213bbd46ccfe92fdaada57985522331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 063/108] fix: extrapolation above the bands in the energy at
 finite temperature

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index a50fedd..c3e1ee9 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -673,7 +673,7 @@ class DensityOfStates:
                 return -simple_term + a / 2 * int_poly((e0 - mu) * beta, (e1 - mu) * beta, 1/beta**2, 2*mu/beta, mu*mu)
             s = np.sum(segment(e_smpl[:-1], e_smpl[1:], states[:-1], states[1:]))
             # add segments/other functions as extrapolation on both side here to get correct high temperature behavior
-            s += segment(e_smpl[-1], e_smpl[-1] + 8. / beta, self.model_bandcount(), self.model_bandcount()) # flat N(e) above the energy range
+            s += segment(e_smpl[-1], max(e_smpl[-1], mu) + 40. / beta, self.model_bandcount(), self.model_bandcount()) # flat N(e) above the energy range
             return s
         # calculate custom distribution for precision/cost balance
         e_smpl = _samples(e0, e1, mu, beta, N)
-- 
2.43.0


From 5e922c485c5c205dabca39c1cf9376de8423125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 064/108] fix: energy and heat capacity for a chemical
 potential at the band edge

---
 src/tight_binding_redweasel/density_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index c3e1ee9..ade3125 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -665,7 +665,7 @@ class DensityOfStates:
             def segment(e0, e1, y0, y1):
                 dx = e1 - e0
                 dy = y1 - y0
-                a = dy / dx
+                a = dy / np.where(dx == 0, 1, dx)
                 b = y0 - e0 * a
                 def f(e):
                     return (a * e / 2 + b) * e * (scipy.special.expit(-(e - mu) * beta) - np.where(e < mu, 1, 0))
@@ -743,7 +743,7 @@ class DensityOfStates:
                 dx = e1 - e0
                 dy = y1 - y0
                 em = (e0 + e1) / 2
-                a = dy / dx
+                a = dy / np.where(dx == 0, 1, dx)
                 b = (y0 + y1) / 2
                 # rho(e) = a*(e-em)+b
                 a0 = (a*(2*em - mu + seebeck) + b)/beta**2
-- 
2.43.0


From 165cab35d7088a05c6ac7c766a11da60add33512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:34 +0000
Subject: [PATCH 065/108] fix: order of energy samples for a chemical potential
 outside of the bands

---
 src/tight_binding_redweasel/density_of_states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index ade3125..02b58e1 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -213,7 +213,9 @@ def _samples(e0, e1, mu, beta, N):
     e0 = np.clip(e0, mu - 30 / beta, mu + 30 / beta)
     e1 = np.clip(e1, mu - 30 / beta, mu + 30 / beta)
     #return np.log(1 / (1e-16 + np.linspace(scipy.special.expit(-beta * (e0 - mu)), scipy.special.expit(-beta * (e1 - mu)), N)) - 1 + 1e-16) / beta + mu
-    return -scipy.special.logit(np.concatenate([np.linspace(scipy.special.expit(-beta * (e0 - mu)), 0.5, N//2, endpoint=False), np.linspace(0.5, scipy.special.expit(-beta * (e1 - mu)), (N+1)//2)])) / beta + mu
+    # the middle is at mu, or at the end of the range closest to mu
+    center = scipy.special.expit(-beta * (np.clip(mu, e0, e1) - mu))
+    return -scipy.special.logit(np.concatenate([np.linspace(scipy.special.expit(-beta * (e0 - mu)), center, N//2, endpoint=False), np.linspace(center, scipy.special.expit(-beta * (e1 - mu)), (N+1)//2)])) / beta + mu
 
 class DensityOfStates:
     """This class represents the density of states for a given 3D bandstructure model.
-- 
2.43.0


From 36f6878c855029b76eeb079dadd8146bd4e3fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 066/108] fix: consistent slope of the states at mu in the
 energy at finite temperature

---
 src/tight_binding_redweasel/density_of_states.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 02b58e1..d02d06c 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -658,7 +658,7 @@ class DensityOfStates:
         # = -integral (a e + b) (f-f0) + (a e^2 + b e) df/de de {- (a mu^2 + b mu) if e0<mu<=e1}  | next: integration by parts
         # = -[(a e^2/2 + b e) (f-f0)] - integral -(a e^2/2 + b e) (df/de + delta(e-mu)) + (a e^2 + b e) df/de de {- (a mu^2 + b mu) if e0<mu<=e1}
         # = -[(a e^2/2 + b e) (f-f0)] + integral a e^2/2 (-df/de) de {- a mu^2/2 if e0<mu<=e1}
-        # the additional term with mu appears only once in the entire integration, so it is added at the end using the exact a=rho(mu).
+        # the additional term with mu appears only once in the entire integration, in the segment that contains mu.
         # A substitution is necessary, as the integrals are defined for f at beta=1 and mu=0, so substitute e->x/beta+mu, x=(e-mu)*beta
         # = -[(a e^2/2 + b e) (f-f0)] + integral a/2 (x/beta + mu)^2 (-df/dx(x) * beta) dx/beta {- a mu^2/2 if e0<mu<=e1}
 
@@ -672,7 +672,8 @@ class DensityOfStates:
                 def f(e):
                     return (a * e / 2 + b) * e * (scipy.special.expit(-(e - mu) * beta) - np.where(e < mu, 1, 0))
                 simple_term = f(e1) - f(e0)
-                return -simple_term + a / 2 * int_poly((e0 - mu) * beta, (e1 - mu) * beta, 1/beta**2, 2*mu/beta, mu*mu)
+                jump_term = np.where((e0 < mu) & (mu <= e1), a * mu*mu/2, 0)
+                return -simple_term + a / 2 * int_poly((e0 - mu) * beta, (e1 - mu) * beta, 1/beta**2, 2*mu/beta, mu*mu) - jump_term
             s = np.sum(segment(e_smpl[:-1], e_smpl[1:], states[:-1], states[1:]))
             # add segments/other functions as extrapolation on both side here to get correct high temperature behavior
             s += segment(e_smpl[-1], max(e_smpl[-1], mu) + 40. / beta, self.model_bandcount(), self.model_bandcount()) # flat N(e) above the energy range
@@ -680,7 +681,7 @@ class DensityOfStates:
         # calculate custom distribution for precision/cost balance
         e_smpl = _samples(e0, e1, mu, beta, N)
         states = np.array([self.states_below(energy) for energy in e_smpl])
-        return (energy + accumulate(e_smpl, states) - self.density(mu) * mu*mu/2) * spin_factor
+        return (energy + accumulate(e_smpl, states)) * spin_factor
 
     def seebeck(self, electrons: float, T_smpl: Iterable[float], N=30, h=1e-4) -> np.ndarray:
         """The derivative of the chemical potential w.r.t. temperature.
-- 
2.43.0


From 2022ca566f928ca570fa007222b165cec2470621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 067/108] fix: heat capacity independent of the zero of energy

---
 src/tight_binding_redweasel/density_of_states.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index d02d06c..eae39a6 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -745,13 +745,15 @@ class DensityOfStates:
             def segment(e0, e1, y0, y1):
                 dx = e1 - e0
                 dy = y1 - y0
-                em = (e0 + e1) / 2
+                # energies relative to mu, which makes no difference for a constant number of electrons,
+                # as integral rho(e)*(e - mu2) * w de = 0, but avoids cancellation.
+                em = (e0 + e1) / 2 - mu
                 a = dy / np.where(dx == 0, 1, dx)
                 b = (y0 + y1) / 2
-                # rho(e) = a*(e-em)+b
-                a0 = (a*(2*em - mu + seebeck) + b)/beta**2
-                b0 = (a*(-3*em**2 - em*seebeck - 2*mu**2 + mu*(5*em + 2*seebeck)) + b*(mu + seebeck))/beta
-                c0 = a*(em**3 - mu**3 + mu**2*(3*em + seebeck) + mu*(-3*em**2 - em*seebeck)) + b*mu*seebeck
+                # rho(e) = a*(e-mu-em)+b
+                a0 = (a*(2*em + seebeck) + b)/beta**2
+                b0 = (a*(-3*em**2 - em*seebeck) + b*seebeck)/beta
+                c0 = a*em**3
                 return int_poly((e0 - mu) * beta, (e1 - mu) * beta, a0, b0, c0)
             # above and below energy range, this is just zero, so no extrapolation needed.
             return np.sum(segment(e_smpl[:-1], e_smpl[1:], rho[:-1], rho[1:]))
-- 
2.43.0


From da423f25c496ec93f44cecda94665982c4fd4bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 068/108] fix: scale of the plotted 3D fermi surface

---
 src/tight_binding_redweasel/fermi_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index 1848c83..dfd02cd 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -66,7 +66,7 @@ def plot_3D_fermi_surface_to_ax(ax, model, fermi_energy, N=32, k_range=[-0.5, 0.
         all_verts += 3e-2 * (all_verts - np.mean(all_verts, axis=1, keepdims=True))
         # Display resulting triangular mesh using Matplotlib. This can also be done
         # with mayavi (see skimage.measure.marching_cubes docstring).
-        mesh = Poly3DCollection(all_verts / N * (k_range[1] - k_range[0]) + k_range[0], antialiased=False, linewidth=0, linestyle='None')
+        mesh = Poly3DCollection(all_verts / (N - 1) * (k_range[1] - k_range[0]) + k_range[0], antialiased=False, linewidth=0, linestyle='None')
         mesh.set_edgecolor(None)
         mesh.set_facecolor(np.mean(all_rgb, axis=1))
         # TODO RendererBase.draw_gouraud_triangles exists
-- 
2.43.0


From e766b8d58184241b62be0e9551255b6f2ee2eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 069/108] fix: plot more than 10 bands in the 3D fermi surface

---
 src/tight_binding_redweasel/fermi_surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index dfd02cd..91b61ea 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -50,7 +50,8 @@ def plot_3D_fermi_surface_to_ax(ax, model, fermi_energy, N=32, k_range=[-0.5, 0.
     all_verts = []
     all_rgb = []
     volumes, band_indices = fermi_surface(model, fermi_energy, xyz)
-    for volume, band, color in zip(volumes, band_indices, colors):
+    for index, (volume, band) in enumerate(zip(volumes, band_indices)):
+        color = colors[index % len(colors)]
         verts, faces, normals, _ = measure.marching_cubes(volume, 0)
 
         rgb = ls.shade_normals(normals, 1.0)[..., None] * mcolors.to_rgb(color)
-- 
2.43.0


From 284594f0e5944ec7e0e541376ad6e626dcce2f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 070/108] fix: materials of more than 10 bands in the exported
 fermi surface

---
 src/tight_binding_redweasel/fermi_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index 91b61ea..0b46893 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -139,7 +139,7 @@ illum 2
             f.write(f"g Band{band}\n")
             for v in verts:
                 f.write("v %.4f %.4f %.4f\n" % tuple(v))
-            f.write(f"usemtl color{index}\n")
+            f.write(f"usemtl color{index % len(colors)}\n")
             for face in faces:
                 f.write("f")
                 for i in face:
-- 
2.43.0


From b7c27acdcbe3070cfc079bd6cd43ff0fd2f183a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 071/108] fix: reference to the material file of the exported
 fermi surface

---
 src/tight_binding_redweasel/fermi_surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index 0b46893..8d2dcb0 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -2,6 +2,7 @@
 # TODO the plot functions are not be stabilized yet
 
 # plot the fermi surface
+import os
 import numpy as np
 from matplotlib import pyplot as plt
 from collections.abc import Callable
@@ -127,7 +128,7 @@ illum 2
     # now create the obj file with the data
     with open(f"{file}.obj", 'w') as f:
         f.write("# OBJ file from tight_binding_redweasel.fermi_surface\n")
-        f.write(f"mtllib {file}.mtl\n")
+        f.write(f"mtllib {os.path.basename(file)}.mtl\n")
         f.write(f"o {file}\n")
         f.write("s 1\n")
 
-- 
2.43.0


From 1ceb6a439b37bae699156aba7ac483f4b84e5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 072/108] fix: real determinant in the accelerated fermi
 surface plot

---
 src/tight_binding_redweasel/fermi_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index 8d2dcb0..a37fd04 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -182,7 +182,7 @@ def plot_2D_fermi_surface(model, fermi_energy, z=[0, 1 / 2], N=50, show=plt.show
             else:
                 h = model.f(k_smpl)
                 # no solving for eigenvalues is required here, however precision sometimes suffers.
-                volume = np.linalg.det(h - np.eye(len(h[0]))*fermi_energy)
+                volume = np.linalg.det(h - np.eye(len(h[0]))*fermi_energy).real
                 if np.any(volume > 0) and np.any(volume < 0):
                     plt.contour(x.reshape((N, N)), y.reshape((N, N)), volume.reshape((N, N)),
                                 (0,), colors="k", linestyles=["solid", "dashed", "dashdot", "dotted"][m % 4])
-- 
2.43.0


From c156ea85b61e9d2a075dffee30be22c32972f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 073/108] fix: transport integrals of insulators at T=0

---
 src/tight_binding_redweasel/bulk_properties.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 500854c..1bc92fe 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -212,7 +212,7 @@ class KIntegral:
                 self.integration_weights = np.array([[1]])
             else:
                 # no e_smpl, all integrals are empty for T=0
-                pass
+                self.e_smpl = []
         self.e_smpl = np.array(self.e_smpl)
         for e in self.e_smpl:
             k_smpl, band_indices, weights, _ = dos_model.fermi_surface_samples(e, improved_points=improved_points, improved_weights=False, normalize=None)
@@ -296,14 +296,15 @@ class KIntegral:
                 I_moments.append(I)
             return np.array(I_moments)
         else:
-            if len(self.beta) == 1 and self.beta[0] > 1e16:
+            if np.all(self.beta > 1e16):
                 # no fermi surface!
                 # to get the output shape right, evaluate g at one point
                 if hessians:
-                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.eye(3)[None], np.zeros((1, 3))))
+                    f_res = g(self.mu[0], np.zeros((1, 3)), np.eye(3)[None], np.zeros((1, 3)))
                 else:
-                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.zeros((1, 3))))
-                return np.array([[I]])
+                    f_res = g(self.mu[0], np.zeros((1, 3)), np.zeros((1, 3)))
+                I = np.zeros(np.shape(f_res)[1:])
+                return np.array([[I] * len(self.beta)] * (moments + 1))
             # TODO see comment in __init__
             raise NotImplementedError("integrals for isolators (semiconductors) are currently not implemented")
 
-- 
2.43.0


From 1891a1f64247e05b381ab4d74f57bc4faae5954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 074/108] fix: k-dependent scattering time in
 conductivity_hall_tensor

---
 src/tight_binding_redweasel/bulk_properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 1bc92fe..99d2a25 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -455,8 +455,8 @@ class KIntegral:
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
-        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k))
-        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k)**2)
+        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1)))
+        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1, 1))**2)
         I = self.integrate_df_A(A, lambda _e, v, h, k: tau_2(np.einsum("yds,na,ns,nbd->naby", antisym_tensor, v, v, h), k), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, k: tau_1(v[:, None, :] * v[:, :, None], k), hessians=False)[0]
         sigma3 = 1 / V_EZ * elementary_charge**3 / eV * spin_factor * I
-- 
2.43.0


From a03f5dd1a5320aba7bd81b80771ffe9b35ff86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 075/108] fix: band ranges include the sampled energies

---
 src/tight_binding_redweasel/density_of_states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index eae39a6..231c729 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -308,7 +308,9 @@ class DensityOfStates:
                         break  # don't follow too big steps (e.g. at band crossings)
                     max_k -= step
                 # compute min/max values and store them
-                self.bands_range.append(tuple(model(np.array([min_k, max_k]))[:, i]))
+                # (a Newton step can also make it worse, e.g. at band crossings, then keep the value of the grid)
+                e_min, e_max = model(np.array([min_k, max_k]))[:, i]
+                self.bands_range.append((min(e_min, np.min(self.bands[..., i])), max(e_max, np.max(self.bands[..., i]))))
         else:
             self.bands_range = [(np.min(self.bands[..., i]), np.max(self.bands[..., i])) for i in range(self.bands.shape[-1])]
         # TODO add bands_range_k_points, because that is useful information in some contexts
-- 
2.43.0


From fd157575c4e283a7270a805148b84e785f5f6dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 076/108] fix: units of the Newton step limit for the band
 edges

---
 src/tight_binding_redweasel/density_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 231c729..3e0a54b 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -293,7 +293,7 @@ class DensityOfStates:
                     if np.any(eigvals < 0):
                         break
                     step = np.linalg.pinv(hess[0, :, :, i]) @ grad[0, :, i]
-                    if np.max(np.abs(step / self.step_sizes)) > 0.55:
+                    if np.max(np.abs(step @ self.A / self.step_sizes)) > 0.55:
                         break  # don't follow too big steps (e.g. at band crossings)
                     min_k -= step
                 # find maximum
@@ -304,7 +304,7 @@ class DensityOfStates:
                     if np.any(eigvals > 0):
                         break
                     step = np.linalg.pinv(hess[0, :, :, i]) @ grad[0, :, i]
-                    if np.max(np.abs(step / self.step_sizes)) > 0.55:
+                    if np.max(np.abs(step @ self.A / self.step_sizes)) > 0.55:
                         break  # don't follow too big steps (e.g. at band crossings)
                     max_k -= step
                 # compute min/max values and store them
-- 
2.43.0


From c4284767fd30602c5b3a608468051d6dd4b812e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 077/108] fix: check the last band offset in the windowed loss
 and the error histogram

---
 src/tight_binding_redweasel/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/loss.py b/src/tight_binding_redweasel/loss.py
index 733fdec..ff849f3 100644
--- a/src/tight_binding_redweasel/loss.py
+++ b/src/tight_binding_redweasel/loss.py
@@ -57,7 +57,7 @@ def model_windowed_loss(bands, ref_bands, min_energy, max_energy, allow_skipped_
         select = (min_energy <= ref_bands) & (ref_bands <= max_energy)
         cost = float("inf")
         # find out bandoffset by checking all bandoffsets and finding the one with the lowest error
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands) * select[:,i:i+compare_bands]
             else:
@@ -98,7 +98,7 @@ def model_error_hist(bands, ref_bands, N=50, allow_skipped_bands=False):
         error = None
         ref_bands2 = ref_bands
         cost = float("inf")
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands)
             else:
-- 
2.43.0


From cec7a2ad905653127b24958c13d05044d0fd9bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 078/108] fix: log a perfect fit

---
 src/tight_binding_redweasel/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/logger.py b/src/tight_binding_redweasel/logger.py
index 8e6dfde..b745e75 100644
--- a/src/tight_binding_redweasel/logger.py
+++ b/src/tight_binding_redweasel/logger.py
@@ -41,8 +41,9 @@ class OptimisationLogger:
             # error visualizer
             # U+2581 = ▁ ... U+2588 = █
             scale = np.max(max_err)
+            vis_scale = scale if scale > 0 else 1.0  # no error at all
             error_vis = "".join(
-                [" " if err/scale <= 1/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
+                [" " if err/vis_scale <= 1/16 else chr(0x2581 + round(err/vis_scale * 8 - 1)) for err in max_err])
             print(f"{iteration:3}: loss{loss:9.2e}{scale:8.1e}×[{error_vis}]", end="")
             if not self.update_line:
                 print()
-- 
2.43.0


From a765f12116dbd758339acfac7c3fee306b593e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 079/108] fix: loss printed by TightBindingModel.optimize for
 several bands

---
 src/tight_binding_redweasel/tight_binding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index b7414e8..3361bc6 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -388,12 +388,12 @@ class TightBindingModel:
 
                 if iteration % 100 == 0:
                     #print(f"loss: {new_loss:.2e} alpha: {alpha:.1e}")
-                    l = self.loss(k_smpl, ref_bands, weights, band_offset)
+                    l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
                     print(f"\rloss: {l:.2e}", end="")
         except KeyboardInterrupt:
             print("\naborted")
         self.normalize()
-        l = self.loss(k_smpl, ref_bands, weights, band_offset)
+        l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
         print(f"\rfinal loss: {l:.2e}")
 
     def normalize(self):
-- 
2.43.0


From 7ce6c1a21f8219ae8f77aaf82c101dd93116e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 080/108] fix: optimize_cg of models with real parameters

---
 src/tight_binding_redweasel/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 6bf0413..7c4679e 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -532,7 +532,7 @@ class BandStructureModel:
                 step = precond_func(conjugate_gradient_solve(A, b, err=float(np.linalg.norm(b)) * 1e-3, max_i=max_cg_iterations))
                 step *= 1 / len(k_smpl)
 
-                self.params -= step
+                self.params = self.params - step  # real parameters become complex
                 if self.symmetrizer is not None:
                     self.params = self.symmetrizer(self.params)
                 if keep_zeros:
-- 
2.43.0


From 78fc0de45d8406a926fb3e9b930598d8ee4444cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 081/108] fix: keep_zeros in BandStructureModel.optimize_cg

---
 src/tight_binding_redweasel/bandstructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 7c4679e..32875bf 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -442,9 +442,6 @@ class BandStructureModel:
         band_weights = np.broadcast_to(np.reshape([band_weights], (1, -1)), (1, N_B))
         band_weights_sqr = (band_weights * band_weights)[0]
         weights = band_weights_sqr
-        # mask for keep_zeros
-        if keep_zeros:
-            H_r_mask = np.where(np.abs(self.params) < 1e-14, 0.0, 1.0)
         # memoize self.f_i here using a rectangular matrix
         f_i = np.zeros((len(k_smpl), len(self.params)), dtype=np.complex128)
         for i in range(len(self.params)):
@@ -487,6 +484,9 @@ class BandStructureModel:
                 return x
 
         self.normalize()
+        # mask for keep_zeros, in the basis of the normalized parameters
+        if keep_zeros:
+            H_r_mask = np.where(np.abs(self.params) < 1e-14, 0.0, 1.0)
         loss = float("inf")
         try:
             mat_t_path = combined_path = None
-- 
2.43.0


From 1893078439286cc3b49d67f14687fa7bd58c61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 082/108] fix: keep_zeros in the optimizers of
 AsymTightBindingModel

---
 .../tight_binding_asym.py                     | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 5abeadb..dac9fef 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -362,11 +362,6 @@ class AsymTightBindingModel:
         # reshape normalized band_weights
         band_weights_norm = np.max(band_weights)**2
         band_weights = np.broadcast_to(np.reshape([band_weights], (1, -1)), (1, len(ref_bands[0])))
-        # mask for keep_zeros
-        if keep_zeros:
-            H_r_mask = np.where(np.abs(self.H.H_r) < 1e-14, 0.0, 1.0)
-            if train_S:
-                S_r_mask = np.where(np.abs(self.S.H_r) < 1e-14, 0.0, 1.0)
         if batch_div == 1 and use_pinv:  # improved optimization
             if max_accel_global is None:
                 max_accel_global = 1.0
@@ -412,6 +407,11 @@ class AsymTightBindingModel:
         if max_accel_global is None:
             max_accel_global = len(k_smpl)
         self.normalize()
+        # mask for keep_zeros, in the basis of the normalized parameters
+        if keep_zeros:
+            H_r_mask = np.where(np.abs(self.H.H_r) < 1e-14, 0.0, 1.0)
+            if train_S:
+                S_r_mask = np.where(np.abs(self.S.H_r) < 1e-14, 0.0, 1.0)
 
         if not train_S:
             # precompute S for every k_smpl
@@ -553,11 +553,6 @@ class AsymTightBindingModel:
         band_weights = np.broadcast_to(np.reshape([band_weights], (1, -1)), (1, N_B))
         band_weights_sqr = (band_weights * band_weights)[0]
         weights = band_weights_sqr
-        # mask for keep_zeros
-        if keep_zeros:
-            H_r_mask = np.where(np.abs(self.H.H_r) < 1e-14, 0.0, 1.0)
-            if train_S:
-                S_r_mask = np.where(np.abs(self.S.H_r) < 1e-14, 0.0, 1.0)
         # memoize self.H.f_i here using a rectangular matrix
         f_i = np.zeros((len(k_smpl), len(self.H.H_r)), dtype=np.complex128)
         for ki, k in enumerate(k_smpl):
@@ -611,6 +606,11 @@ class AsymTightBindingModel:
                 return x
 
         self.normalize()
+        # mask for keep_zeros, in the basis of the normalized parameters
+        if keep_zeros:
+            H_r_mask = np.where(np.abs(self.H.H_r) < 1e-14, 0.0, 1.0)
+            if train_S:
+                S_r_mask = np.where(np.abs(self.S.H_r) < 1e-14, 0.0, 1.0)
 
         if not train_S:
             # precompute S for every k_smpl
-- 
2.43.0


From 3eea1d890ce9d3a0d74eea1a390b994a28842b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 083/108] fix: AsymTightBindingModel.optimize with train_S=True

---
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index dac9fef..9f25579 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -447,7 +447,7 @@ class AsymTightBindingModel:
                 H = np.einsum("nkl,in->ikl", self.H.H_r, batch_f_i)
                 H += np.conj(np.swapaxes(H, -1, -2))
                 if train_S:
-                    H = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
+                    S = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
                     S += np.conj(np.swapaxes(S, -1, -2))
                 eigvals, eigvecs = geigh(H, S)
                 eigvals = eigvals[:, band_offset:][:, :len(batch_ref[0])]
-- 
2.43.0


From 0556c11c87e6de88e429cebeaf004ed44d03d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 084/108] fix: autofit_asym with additional bands

---
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 9f25579..4cd230d 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -983,7 +983,7 @@ def autofit_asym(name, neighbors_src, k_smpl, ref_bands, band_weights, sym: Symm
         tb = AsymTightBindingModel.new(neighbors, add_bands_below + np.shape(ref_bands)[-1] + add_bands_above)
         tb.randomize(0.01)
         tb.normalize()
-        tb.H.H_r[0] = np.diag(ref_bands[0])
+        tb.H.H_r[0] = np.diag(np.concatenate([[ref_bands[0][0]] * add_bands_below, ref_bands[0], [ref_bands[0][-1]] * add_bands_above]))
         # now fit in 10 steps extending from the gamma point (0-point)
         log = logger.OptimisationLogger(update_line=False)
         for j in range(1, 11):
-- 
2.43.0


From 0e1d3f596c3c0ce312d01aeaedb0989b53690faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 085/108] fix: preconditioner of optimize_cg for less k-points
 than coefficients

---
 src/tight_binding_redweasel/bandstructure.py      |  3 +--
 src/tight_binding_redweasel/linalg.py             | 15 +++++++++++++++
 src/tight_binding_redweasel/tight_binding_asym.py |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 32875bf..9f4b244 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -465,8 +465,7 @@ class BandStructureModel:
             # TODO add k_weights in here as well!
             # TODO it seems that preconditioning like this does not always result in an improvement... why?
             # E_mat = np.linalg.pinv(np.linalg.cholesky(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
-            E_mat = np.linalg.cholesky(np.linalg.pinv(
-                np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
+            E_mat = pinv_factor(np.einsum("nk,nl->kl", c_i, f_i)) * len(k_smpl)**.5
             E_mat_c = np.conj(E_mat)
             # precompute a contraction that comes up often
             c_i_E_mat_c = np.einsum("nk,kl->nl", c_i, E_mat_c)
diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 44f6e03..7931e6f 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -238,6 +238,21 @@ def lattice_in_sphere(A, dist) -> np.ndarray:
     return np.array((U @ pos.T).T)
 
 
+def pinv_factor(A: np.ndarray, rtol=1e-12) -> np.ndarray:
+    """Factor E of the pseudoinverse `E @ E^+ = pinv(A)` of a positive semidefinite matrix A.
+
+    Args:
+        A (np.ndarray): hermitian positive semidefinite matrix, which may be singular.
+        rtol (float, optional): Relative size of the eigenvalues, which are treated as 0. Defaults to 1e-12.
+
+    Returns:
+        np.ndarray: The matrix E.
+    """
+    la, ev = np.linalg.eigh(A)
+    select = la > rtol * np.max(la)
+    return ev * np.where(select, np.where(select, la, 1.0)**-.5, 0.0)
+
+
 def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarray, x0: np.ndarray | None = None, err=1e-9, max_i: int | None = None) -> np.ndarray:
     """Generic conjugate gradient solver for `Ax=b`.
 
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 4cd230d..3797495 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -588,7 +588,7 @@ class AsymTightBindingModel:
             # TODO add k_weights in here as well!
             # TODO it seems that preconditioning like this does not always result in an improvement... why?
             #E_mat = np.linalg.pinv(np.linalg.cholesky(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
-            E_mat = np.linalg.cholesky(np.linalg.pinv(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
+            E_mat = pinv_factor(np.einsum("nk,nl->kl", c_i, f_i)) * len(k_smpl)**.5
             E_mat_c = np.conj(E_mat)
             # precompute a contraction that comes up often
             c_i_E_mat_c = np.einsum("nk,kl->nl", c_i, E_mat_c)
-- 
2.43.0


From 248a4208dfaad57243d499a2b675e8a692906d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 086/108] fix: no conjugate gradient step after convergence

---
 src/tight_binding_redweasel/linalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 7931e6f..7802bab 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -278,6 +278,9 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
         max_i = int(np.prod(np.shape(x)) * 2.5) + 1
     i = 0
     while True:
+        if r_sqr <= err**2:
+            # print("cg", i)
+            return x
         A_d = A(d)
         d_sqr = np.real(np.sum(d.conj() * A_d))  # real because A is positive definite!
         if d_sqr == 0:
@@ -285,9 +288,6 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
             return x
         alpha = r_sqr / d_sqr
         x -= alpha * d
-        if r_sqr <= err**2:
-            # print("cg", i)
-            return x
         if i > max_i:
             # print(f"conjugate gradient didn't converge ({r_sqr**.5:.2e} > {err:.2e})")
             return x
-- 
2.43.0


From d357e932207987a584e8c9596537ff3a5e8f1de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 087/108] fix: conjugate_gradient_solve keeps the starting
 guess

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 7802bab..ab0c210 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -270,7 +270,7 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
         x = np.zeros_like(b)
         r = -b
     else:
-        x = x0
+        x = x0.copy()
         r = A(x) - b
     d = r.copy()
     r_sqr = np.sum(r.conj() * r)
-- 
2.43.0


From 8b90410446481208b2ebe9dd8983f0be91386866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 088/108] fix: optimize_cg at a stationary point

---
 src/tight_binding_redweasel/bandstructure.py      | 3 +++
 src/tight_binding_redweasel/tight_binding_asym.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 9f4b244..d8b67b4 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -518,6 +518,9 @@ class BandStructureModel:
                 diff *= weights
                 # TODO test contracting eigvecs and eigvecs_c beforehand, because that combination is used everywhere
                 b = np.einsum("nk,nid,njd,nd->kij", c_i_E_mat_c, eigvecs, eigvecs_c, diff, optimize=mat_t_path)
+                if np.linalg.norm(b) <= 1e-12 * np.linalg.norm(c_i_E_mat_c) * np.linalg.norm(diff):
+                    # stationary up to rounding errors -> the solution of the linear equation would only be noise
+                    b[:] = 0
                 if combined_path is None:
                     # combined_path, info = np.einsum_path("nk,nid,njd,nd,nad,nbd,onp,opab->kij", c_i_E_mat_c, eigvecs, eigvecs_c, weights, eigvecs_c, eigvecs, [f_i, f_i], [b, b], optimize="optimal")
                     # print(combined_path, info)
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 3797495..602b8c8 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -652,6 +652,9 @@ class AsymTightBindingModel:
                 diff *= weights
                 # TODO test contracting eigvecs and eigvecs_c beforehand, because that combination is used everywhere
                 b = np.einsum("nk,nid,njd,nd->kij", c_i_E_mat_c, eigvecs, eigvecs_c, diff, optimize=mat_t_path)
+                if np.linalg.norm(b) <= 1e-12 * np.linalg.norm(c_i_E_mat_c) * np.linalg.norm(diff):
+                    # stationary up to rounding errors -> the solution of the linear equation would only be noise
+                    b[:] = 0
                 if combined_path is None:
                     #mat_path = np.einsum_path("nid,njd,nij->nd", eigvecs_c, eigvecs, np.einsum("nk,kij->nij", f_i, b), optimize="optimal")[0]
                     #combined_path = np.einsum_path("nk,nid,njd,nad,nbd,nab,kl->lij", c_i, eigvecs, eigvecs_c, eigvecs_c, eigvecs, np.einsum("nk,kij->nij", f_i, b), E_mat_c, optimize="optimal")[0]
-- 
2.43.0


From 37a10bfff1e61e08f4158d6da4097bc17dd88a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 089/108] fix: KPath accepts an explicit start point given as
 tuple or list

---
 src/tight_binding_redweasel/kpaths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 378fda8..4ffaacd 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -43,7 +43,7 @@ class KPath(Sequence):
         self.points = points  # no copy, be careful!
         self.indices = [0]  # symmetry point indices
         additional = []
-        if isinstance(start, list) or isinstance(start, tuple):
+        if isinstance(start, (list, tuple)) and (isinstance(start[0], str) or np.ndim(start[0]) > 0):
             # accept a list of points instead of start
             additional = start[1:]
             start = start[0]
-- 
2.43.0


From 33624e3d3ecd8af37403a3f384d965b348007b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 090/108] fix: tetragonal_bc_points keeps the module table

---
 src/tight_binding_redweasel/kpaths.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 4ffaacd..6e0d75c 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -356,6 +356,9 @@ PATH_1D = KPath('G1d').to('X1d', N=100)
 # TODO implement https://www.nature.com/articles/s41524-020-00383-7
 # to get all the paths.
 
+# the default table, independent of local names
+_default_points = points
+
 # internal function to compute the more complicated
 # symmetry points from the face centered points
 # hsp = high symmetry point (abbreviated because it is internal and used often)
@@ -406,8 +409,7 @@ def tetragonal_bc_points(c: float) -> dict:
         dict: _description_
     """
     if c == 1:
-        global points
-        return points  # cubic, is contained in the global points dict
+        return _default_points  # cubic, is contained in the global points dict
     points = {}
     points['G'] = (np.zeros(3), 'Γ')
     points['X'] = (np.array([0.5, 0.5, 0]), 'X')
-- 
2.43.0


From 223b4af46794f4b9575184e7dbefe9c97eee671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 091/108] fix: hexagonal_points uses r as distance between
 reciprocal lattice points

---
 src/tight_binding_redweasel/kpaths.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 6e0d75c..3a0c9cc 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -390,10 +390,10 @@ def hexagonal_points(r: float, h: float) -> dict:
     points = {}
     points['G'] = (np.zeros(3), 'Γ')
     points['A'] = (np.array([0, 0, h / 2]), 'A')
-    points['K'] = (np.array([r / 1.5, 0, 0]), 'K')
-    points['H'] = (np.array([r / 1.5, 0, h / 2]), 'H')
-    points['M'] = (np.array([0.5 * r, 0.5 / 3**.5 * r, 0]), 'M')
-    points['L'] = (np.array([0.5 * r, 0.5 / 3**.5 * r, h / 2]), 'L')
+    points['K'] = (np.array([r / 3**.5, 0, 0]), 'K')
+    points['H'] = (np.array([r / 3**.5, 0, h / 2]), 'H')
+    points['M'] = (np.array([3**.5 / 4 * r, 0.25 * r, 0]), 'M')
+    points['L'] = (np.array([3**.5 / 4 * r, 0.25 * r, h / 2]), 'L')
     return points
 
 
-- 
2.43.0


From 322ab1d867c0fe0f15fb5233f888f7b4edd7eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 092/108] fix: interpolate wraps periodic data without a
 symmetry

---
 src/tight_binding_redweasel/kpaths.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 3a0c9cc..0dc41d6 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -269,6 +269,8 @@ def interpolate(k_smpl, bands, sym: _sym.Symmetry = None, method="cubic", period
     assert len(k_smpl.shape) == 2, f"k_smpl should have shape (N, dim), but had shape {k_smpl.shape}"
     assert k_smpl.shape[0] == bands.shape[0], f"number of k_smpl and bands needs to match, but was k_smpl: ({np.shape(k_smpl)}), bands: ({np.shape(bands)})"
     kdim = len(k_smpl[0])
+    if sym is None and periodic:
+        sym = _sym.Symmetry.none(kdim)  # wraps the data into the unit cell
     if sym is not None:
         assert sym.dim() == kdim, f"dimensions of the symmetry and the k_smpl data don't match, symmetry: {sym.dim()}, k_smpl: {kdim}"
         k_smpl_orig = k_smpl
-- 
2.43.0


From 0d1344019405a652a6c5a832ed06c4fe46ebfdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 093/108] fix: geigh keeps complex and fractional eigenvectors

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index ab0c210..704400c 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -72,7 +72,7 @@ def geigh(H: np.ndarray, S: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
         else:
             # TODO check if using np.linalg.cholesky to factor S and then np.linalg.eigh is faster
             res_la = np.zeros(H.shape[:-1], dtype=np.float64)
-            res_ev = np.zeros(H.shape, dtype=H.dtype)
+            res_ev = np.zeros(H.shape, dtype=np.result_type(H, S, np.float64))
             for i in range(len(H)):
                 la, ev = scipy.linalg.eigh(H[i], S[i])
                 res_la[i] = la
-- 
2.43.0


From 28b744f13b30e025f5af7447222a21812731a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 094/108] fix: lattice_in_sphere orthogonalises the basis

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 704400c..01d1942 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -217,7 +217,7 @@ def lattice_in_sphere(A, dist) -> np.ndarray:
         R /= np.diag(R)[:, None]
         R_inv = np.linalg.inv(R)
         assert abs(abs(np.linalg.det(R_inv)) - 1.0) < 1e-7
-        R_inv = np.round(R)
+        R_inv = np.round(R_inv)
         assert abs(abs(np.linalg.det(R_inv)) - 1.0) < 1e-7
         A = A @ R_inv
     # TODO use a supercell like fcc or bcc to make the following more efficient
-- 
2.43.0


From ea98049e6f7a48fa5b4ce70c758f9125dcd3aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 095/108] fix: conjugate_gradient_solve respects max_i

---
 src/tight_binding_redweasel/linalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 01d1942..7f94f3d 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -278,7 +278,7 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
         max_i = int(np.prod(np.shape(x)) * 2.5) + 1
     i = 0
     while True:
-        if r_sqr <= err**2:
+        if r_sqr <= err**2 or max_i <= 0:
             # print("cg", i)
             return x
         A_d = A(d)
@@ -288,11 +288,11 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
             return x
         alpha = r_sqr / d_sqr
         x -= alpha * d
-        if i > max_i:
+        i += 1
+        if i >= max_i:
             # print(f"conjugate gradient didn't converge ({r_sqr**.5:.2e} > {err:.2e})")
             return x
 
-        i += 1
         A_d *= alpha
         r -= A_d
         r_sqr_last = r_sqr
-- 
2.43.0


From 72aacfe6498e7f0b58e3809d159541af7b47f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 096/108] fix: pointcloud_distance removes matched points

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 7f94f3d..b8b3f2a 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -206,7 +206,7 @@ def pointcloud_distance(pointcloud1, pointcloud2):
         d = np.linalg.norm(p1 - pointcloud2, axis=-1)
         min_index = np.argmin(d.flat)
         dist += d.flat[min_index]
-        d = np.delete(d.flat, min_index)
+        pointcloud2 = np.delete(pointcloud2, min_index, axis=0)
     return dist
 
 
-- 
2.43.0


From 96e672528e0fd9e621f77ff1bc0eafded12dbcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 097/108] fix: mass_density doesn't count the electrons twice

---
 src/tight_binding_redweasel/qespresso_interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index fdda4ef..393be26 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -390,9 +390,8 @@ class QECrystal:
         ax.legend()
     
     def _mass_per_cell(self) -> float:
-        nuclei_mass = 1.66053907e-27 * sum((element_masses[element_numbers[t]] for t in self.types))
-        electron_mass = 9.1093837e-31 * sum((element_numbers[t] for t in self.types))
-        return electron_mass + nuclei_mass # in kg
+        # the tabulated atomic masses already include the electrons
+        return 1.66053907e-27 * sum((element_masses[element_numbers[t]] for t in self.types)) # in kg
 
     def mass_density(self) -> float:
         """Compute the mass density based on the given crystal lattice.
-- 
2.43.0


From 3f0c6ef00507d075fa572edff9dfb4313497417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 098/108] fix: scale_to_density doesn't modify the lattice
 vectors of the caller

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 393be26..df1b269 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -408,7 +408,7 @@ class QECrystal:
         Args:
             density (float): The target density in kg/m^3
         """
-        self.A *= (self.mass_density() / density)**(1/3)
+        self.A = self.A * (self.mass_density() / density)**(1/3)
 
     def lattice_vectors_in_m(self) -> np.ndarray:
         """
-- 
2.43.0


From 84e797c194e723969223730eabb118c268a12506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 099/108] fix: read_projections_order_spilling for more than
 one atom

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index df1b269..1166fc8 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -595,7 +595,7 @@ class QECrystal:
                     key, _value = key_value.split("=")
                     key = key.strip()
                     if "charge" not in key and key not in ["p", "d", "f"]:
-                        if self.types:
+                        if len(self.types) > 0:
                             order.append(f"{index}{self.types[index-1]}_{key}")
                         else:
                             order.append(f"{index}_{key}")
-- 
2.43.0


From ed8883d8bdb19a1984ae7112467aad29441d63a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 100/108] fix: order of the spin components in
 read_wavefunctions

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 1166fc8..741c40e 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -778,8 +778,8 @@ class QECrystal:
                     evc[i,:] = np.fromfile(f, dtype='complex128', count=npol*igwx)
                     f.seek(8, 1)
                 
-                # TODO is this order correct???
-                evc_list.append(evc.reshape(nbnd, igwx, npol))
+                # every band is stored as one block of igwx coefficients per spin polarisation
+                evc_list.append(np.swapaxes(evc.reshape(nbnd, npol, igwx), 1, 2))
                 g_smpl_list.append(mill)
         inv_order = np.zeros(len(order), dtype=np.int64)
         inv_order[np.array(order)-1] = np.arange(len(order))
-- 
2.43.0


From 37e6b25e6fbee1e7d0733d5295328ba715455197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 101/108] fix: read_charge_density reads the coefficients

---
 src/tight_binding_redweasel/qespresso_interface.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 741c40e..397dfd5 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -814,14 +814,15 @@ class QECrystal:
             
             mill = np.fromfile(f, dtype='int32', count=3*ngm_g)
             mill = mill.reshape((ngm_g, 3))
-            # k+G = xk + h*b1 + k*b2 + l*b3
-            g_smpl = b1[None,:] * mill[:, 0:1] + b2[None,:] * mill[:, 1:2] + b3[None,:] * mill[:, 2:3]
+            # G = h*b1 + k*b2 + l*b3
+            # mill is in "crystal coordinates", so just return that as G
 
-            rho_g = np.zeros((nspin, ngm_g))
+            f.seek(8, 1)
+            rho_g = np.zeros((nspin, ngm_g), dtype="complex128")
             for i in range(nspin):
                 rho_g[i,:] = np.fromfile(f, dtype='complex128', count=ngm_g)
                 f.seek(8, 1)
-        return g_smpl, rho_g
+        return mill, rho_g
 
     def read_dos(self):
         """Read the data from the last dos.x run.
-- 
2.43.0


From ea6790fc57ec0f995c3548c8a333dc2bcfe82c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 102/108] fix: from_disk atom positions

---
 src/tight_binding_redweasel/qespresso_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 397dfd5..cc1ca56 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1397,6 +1397,7 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
         a2 = [float(x) for x in section.getElementsByTagName("a2")[0].firstChild.nodeValue.strip().split()]
         a3 = [float(x) for x in section.getElementsByTagName("a3")[0].firstChild.nodeValue.strip().split()]
         A = np.array([a1, a2, a3]).T
+        inv_A = np.linalg.inv(A) # in 1/bohr_radius, like the positions
         if crystal.unit == "angstrom":
             A *= bohr_to_angstrom
         crystal.A = A
@@ -1404,7 +1405,7 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
             atom_type = atom.getAttribute("name")
             atom_pos = [float(x) for x in atom.firstChild.nodeValue.strip().split()]
             # convert atom_pos to crystal coordinates, as those are used by the class
-            atom_pos = np.linalg.inv(A) @ atom_pos
+            atom_pos = inv_A @ atom_pos
             basis.append(atom_pos)
             types.append(atom_type)
         crystal.basis = np.array(basis)
-- 
2.43.0


From 67a6c5429248b60b1d2bd48cadda3e2626dcad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 103/108] fix: from_disk reads energies in Hartree

---
 src/tight_binding_redweasel/qespresso_interface.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index cc1ca56..d3d9195 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1410,13 +1410,14 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
             types.append(atom_type)
         crystal.basis = np.array(basis)
         crystal.types = np.array(types)
-        crystal.kinetic_energy_cutoff = float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
+        # the xml uses Hartree, but the class uses the unit of the input, which is Ry
+        crystal.kinetic_energy_cutoff = 2.0 * float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
         #ecutrho = float(section.getElementsByTagName("ecutrho")[0].firstChild.nodeValue)
         smearing = section.getElementsByTagName("smearing")
         if smearing:
             if smearing[0].firstChild.nodeValue.strip() == "fd": # TODO check the shorthand...
-                # TODO check unit!
-                crystal.T = float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
+                # the xml uses Hartree = 2Ry
+                crystal.T = 2.0 * float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
     if prepare_pseudopotentials:
         qe_prepare()
     return crystal
-- 
2.43.0


From 5bd4b120c76de311453a78b073248e5500333d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 104/108] fix: read_bands_crystal skips pure lattice symmetries

---
 src/tight_binding_redweasel/qespresso_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index d3d9195..b16f321 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -531,6 +531,9 @@ class QECrystal:
             # now find all the data in the xml file
             symmetry_list = output.getElementsByTagName("symmetry")
             for sym in symmetry_list:
+                info = sym.getElementsByTagName("info")
+                if info and info[0].firstChild.nodeValue.strip() == "lattice_symmetry":
+                    continue # symmetry of the empty lattice, but not of the crystal
                 rot = sym.getElementsByTagName("rotation")[0]
                 # read content and convert to matrix
                 content = rot.firstChild.nodeValue
-- 
2.43.0


From 99c020369c3a7f9dbd3366379f43aae114ae89cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 105/108] fix: from_disk restores the relativistic flag

---
 src/tight_binding_redweasel/qespresso_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index b16f321..091dd12 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1416,6 +1416,9 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
         # the xml uses Hartree, but the class uses the unit of the input, which is Ry
         crystal.kinetic_energy_cutoff = 2.0 * float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
         #ecutrho = float(section.getElementsByTagName("ecutrho")[0].firstChild.nodeValue)
+        spinorbit = section.getElementsByTagName("spinorbit")
+        if spinorbit:
+            crystal.relativistic = spinorbit[0].firstChild.nodeValue.strip() == "true"
         smearing = section.getElementsByTagName("smearing")
         if smearing:
             if smearing[0].firstChild.nodeValue.strip() == "fd": # TODO check the shorthand...
-- 
2.43.0


From 9f40bb40ade7dc94e35154a33e7782a686ae89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 106/108] fix: qe_prepare checks every character of a
 pseudopotential name

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 091dd12..2ec2db4 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -108,8 +108,8 @@ def qe_prepare(pseudo_potential_files_dict=None):
             file = name + ".rel-pbesol-n-kjpaw_psl.1.0.0.UPF"
             pseudo_potential_files_dict[name] = file
         if not os.path.isfile("./pseudo/" + file):
-            # TODO sanitize "file" -> otherwise command injection is possible
-            if re.match(r"[a-zA-Z0-9\.\-]", file) is None:
+            # the name is part of a shell command -> only allow plain file names
+            if re.fullmatch(r"[a-zA-Z0-9_+\.\-]+", file) is None:
                 print("skipped file", file, "because it contains incompatible characters")
                 continue
             res = subprocess.run("wget https://pseudopotentials.quantum-espresso.org/upf_files/" + file, cwd="./pseudo", shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
-- 
2.43.0


From 43a864135a343d7a7cac48de19bbe8b70c253fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 107/108] fix: read_bands_crystal without any listed symmetry

---
 src/tight_binding_redweasel/qespresso_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 2ec2db4..a8de691 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -560,6 +560,7 @@ class QECrystal:
             if len(S) == 0:
                 # there is always one symmetry, the trivial symmetry
                 S = np.eye(3)[None,...]
+                S_trans = [np.zeros(3)]
             # assert np.linalg.norm(np.einsum("nij,nik->njk", S, S) - np.eye(len(S[0]))) < 1e-5, "symmetries in crystal space are not orthogonal"
             assert np.linalg.norm(np.round(S) - S) < 1e-8, "symmetries in crystal space should be integers, but are not"
             assert len(S_trans) == len(S), "every symmetry needs an associated translational part if one of them has one."
-- 
2.43.0


From b1f46ad2cbd3a04fa0ef7008f3032825256bfc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 108/108] fix: energy_range with band edges that are not
 ordered like the bands

---
 src/tight_binding_redweasel/density_of_states.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 3e0a54b..736c992 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -498,10 +498,10 @@ class DensityOfStates:
                 if max_below < min_above:
                     return fermi_energy  # isolator (can only happen at integer electrons)
             elif e_int == 0:
-                return self.bands_range[0][0]
+                return self.energy_range()[0]
             else:
                 assert e_int == len(self.bands_range)  # already checked above, it's here just as a reminder
-                return self.bands_range[-1][1]
+                return self.energy_range()[1]
         # first approximation from a very rough states curve
         e_smpl, states_smpl, _ = self.full_curve(N=2)
         e_index = list(states_smpl > electrons).index(True) - 1
@@ -555,7 +555,8 @@ class DensityOfStates:
         Returns:
             tuple[float, float]: minimal energy, maximal energy
         """
-        return self.bands_range[0][0], self.bands_range[-1][1]
+        # the estimated band edges are not necessarily ordered like the bands
+        return min(e for e, _ in self.bands_range), max(e for _, e in self.bands_range)
 
     def chemical_potential(self, electrons: float, T_smpl, N=30, tol=1e-8, maxsteps=30) -> np.ndarray[Any, np.dtypes.Float64DType]:
         """Compute the chemical potential for a given number of electrons per cell at multiple temperatures.
-- 
2.43.0

