From b21dc04b02961b5554115ea20cfa06567d2782f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 01/17] fix: keep v unscaled when solve_equation normalizes by
 phi_max

---
 ssspy/linalg/lqpqm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index e5cce69..ca362e4 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -176,8 +176,6 @@ def solve_equation(
     if normalization:
         phi_max_original = phi_max
         phi = phi / phi_max[:, np.newaxis]
-        v = v / phi_max[:, np.newaxis]
-        v_max = v_max / phi_max
         z = z / phi_max
         phi_max = phi_max / phi_max  # i.e. phi_max = 1
     else:
-- 
2.43.0


From 56ea40c13317eb0f376804db54d4fddc30d06651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 02/17] fix: resume AuxIVA and ILRMA when the demixing filter
 is implicit

---
 ssspy/bss/ilrma.py | 7 ++++++-
 ssspy/bss/iva.py   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/ilrma.py b/ssspy/bss/ilrma.py
index 13eb5e3..90e9670 100644
--- a/ssspy/bss/ilrma.py
+++ b/ssspy/bss/ilrma.py
@@ -194,7 +194,12 @@ class ILRMABase(IterativeMethodBase):
                 W = self.demix_filter.copy()
 
         self.demix_filter = W
-        self.output = self.separate(X, demix_filter=W)
+
+        if W is None:
+            # Demixing filter is implicit (e.g. ISS and IPA), so resume from current estimation.
+            self.output = self.output.copy()
+        else:
+            self.output = self.separate(X, demix_filter=W)
 
         self._init_nmf(flooring_fn=flooring_fn, rng=self.rng)
 
diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 35e12e2..7f77d36 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -166,7 +166,12 @@ class IVABase(IterativeMethodBase):
                 W = self.demix_filter.copy()
 
         self.demix_filter = W
-        self.output = self.separate(X, demix_filter=W)
+
+        if W is None:
+            # Demixing filter is implicit (e.g. ISS and IPA), so resume from current estimation.
+            self.output = self.output.copy()
+        else:
+            self.output = self.separate(X, demix_filter=W)
 
     def separate(self, input: np.ndarray, demix_filter: np.ndarray) -> np.ndarray:
         r"""Separate ``input`` using ``demixing_filter``.
-- 
2.43.0


From 7a230e77974a29cbae2a5ded650baf12ccc342ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:54 +0000
Subject: [PATCH 03/17] fix: solve the quadratic subproblem of ADMMBSS for the
 demixing filter with correct sides

---
 ssspy/bss/admmbss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 70f0786..85ba769 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -233,7 +233,8 @@ class ADMMBSS(ADMMBSSBase):
         VY_tilde = np.sum(V_tilde - Y_tilde, axis=0)
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(n_penalties * XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(n_penalties * XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
@@ -427,7 +428,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         VY_tilde = V_tilde - Y_tilde
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
-- 
2.43.0


From 40945cb447aee260256ad267eacc630f8f4f88ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:29 +0000
Subject: [PATCH 04/17] fix: resolve default of record_loss before initializing
 proximal BSS methods

---
 ssspy/bss/admmbss.py | 10 +++++-----
 ssspy/bss/pdsbss.py  | 10 +++++-----
 ssspy/bss/proxbss.py | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 85ba769..bee12d4 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -295,11 +295,6 @@ class MaskingADMMBSS(ADMMBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -313,6 +308,11 @@ class MaskingADMMBSS(ADMMBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index eb89dc4..c0feeb7 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -272,11 +272,6 @@ class MaskingPDSBSS(PDSBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -290,6 +285,11 @@ class MaskingPDSBSS(PDSBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/proxbss.py b/ssspy/bss/proxbss.py
index 1ebe7b4..64de0df 100644
--- a/ssspy/bss/proxbss.py
+++ b/ssspy/bss/proxbss.py
@@ -50,11 +50,6 @@ class ProxBSSBase(IterativeMethodBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super().__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -69,6 +64,11 @@ class ProxBSSBase(IterativeMethodBase):
             if record_loss is None:
                 record_loss = True
 
+        super().__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if prox_penalty is None:
             raise ValueError("Specify proximal operator of penalty function.")
         else:
-- 
2.43.0


From db78c1520a7b8fcea4ac054b53631b55864bcbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:29 +0000
Subject: [PATCH 05/17] fix: compute loss of masking-based BSS with a single
 penalty function

---
 ssspy/bss/admmbss.py | 2 ++
 ssspy/bss/pdsbss.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index bee12d4..bb64a2f 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -305,6 +305,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index c0feeb7..c179443 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -282,6 +282,8 @@ class MaskingPDSBSS(PDSBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
-- 
2.43.0


From 7b565ece26b617826632ef972b4c10ea1c309570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 06/17] fix: apply minimal distortion principle to whitened
 input in FastIVA and FasterIVA

---
 ssspy/bss/iva.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 7f77d36..21bf6a5 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -554,6 +554,25 @@ class FastIVABase(IVABase):
 
         self.output, self.demix_filter = Y_scaled, W_scaled
 
+    def apply_minimal_distortion_principle(self) -> None:
+        r"""Apply minimal distortion principle to estimated spectrograms."""
+        assert self.scale_restoration, "Set self.scale_restoration=True."
+
+        reference_id = self.reference_id
+
+        X, Z = self.input, self.whitened_input
+        W = self.demix_filter
+
+        Y = self.separate(Z, demix_filter=W, use_whitening=False)
+        Y_scaled = minimal_distortion_principle(Y, reference=X, reference_id=reference_id)
+
+        Z = Z.transpose(1, 0, 2)
+        Z_Hermite = Z.transpose(0, 2, 1).conj()
+        ZZ_Hermite = Z @ Z_Hermite
+        W_scaled = Y_scaled.transpose(1, 0, 2) @ Z_Hermite @ np.linalg.inv(ZZ_Hermite)
+
+        self.output, self.demix_filter = Y_scaled, W_scaled
+
 
 class AuxIVABase(IVABase):
     r"""Base class of auxiliary-function-based independent vector analysis (IVA).
-- 
2.43.0


From 1aea062a90be4c1e2770d05f1a531e22d8bc722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 07/17] fix: saturate full-scale samples instead of wrapping
 around in wavwrite

---
 ssspy/io/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index e8d3de8..b1a4fec 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -81,7 +81,8 @@ def wavwrite(
         bits_per_sample = 16
 
         # float to int
-        _waveform = _waveform * 2 ** (bits_per_sample - 1)
+        vmax = 2 ** (bits_per_sample - 1)
+        _waveform = np.clip(_waveform.astype("f8") * vmax, -vmax, vmax - 1)
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
-- 
2.43.0


From c0a67a5362ed4b45b40633daa974340cc0f5aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 08/17] fix: reject negative frame_offset in wavread

---
 ssspy/io/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index b1a4fec..515b1b3 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -155,6 +155,9 @@ def _read_data_chunk(
     return_2d: Optional[bool] = None,
     channels_first: Optional[bool] = None,
 ) -> np.ndarray:
+    if frame_offset < 0:
+        raise ValueError(f"Invalid frame_offset={frame_offset} is given. Set nonnegative integer.")
+
     data_chunk_size = struct.unpack("<I", f.read(4))[0]
     bytes_per_sample = block_align // n_channels
     n_full_samples = data_chunk_size // bytes_per_sample
-- 
2.43.0


From e6ce40daaaf6b366887eb5698ae80f65d8797905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 09/17] fix: overwrite sequence in
 score_based_permutation_solver when overwrite=True

---
 ssspy/algorithm/permutation_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index 5ed2eee..a7ca41b 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -213,7 +213,7 @@ def score_based_permutation_solver(
         perm_max = np.argmax(scores, axis=1)
         perm_max = permutations[perm_max]
         sequence_normalized = _parallel_sort(sequence_normalized, perm_max)
-        sequence = _parallel_sort(sequence, perm_max)
+        sequence[:] = _parallel_sort(sequence, perm_max)
 
         for idx in range(len(permutable)):
             permutable[idx][:] = _parallel_sort(permutable[idx], perm_max)
-- 
2.43.0


From b25d717994a42e401b947d58c7581c8d770f8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:33 +0000
Subject: [PATCH 10/17] fix: avoid cancellation in cubic root solver

---
 ssspy/linalg/polynomial.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ssspy/linalg/polynomial.py b/ssspy/linalg/polynomial.py
index eaefacc..bb88d9c 100644
--- a/ssspy/linalg/polynomial.py
+++ b/ssspy/linalg/polynomial.py
@@ -79,8 +79,13 @@ def _find_cubic_roots(P: np.ndarray, Q: np.ndarray) -> np.ndarray:
 
     discriminant = (Q / 2) ** 2 + (P / 3) ** 3
 
-    U = cbrt(-Q / 2 + np.sqrt(discriminant))
-    # U = 0, when P = 0.
+    # Choose the square root that avoids cancellation in -Q / 2 + root.
+    root = np.sqrt(discriminant)
+    is_cancelled = np.real(Q.conj() * root) > 0
+    root = np.where(is_cancelled, -root, root)
+
+    U = cbrt(-Q / 2 + root)
+    # U = 0, only when P = Q = 0.
     is_singular = P == 0
     U = np.where(is_singular, 1, U)
     V = -P / (3 * U)
-- 
2.43.0


From 33ed1522edafc4aae982aef418ead6a976d173df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 11/17] fix: reject inconsistent block alignment in wavread

---
 ssspy/io/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index 515b1b3..fb06fbd 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -143,6 +143,9 @@ def _read_fmt_chunk(
     if bits_per_sample * sample_rate * n_channels != 8 * byte_rate:
         raise ValueError("Invalid header is detected.")
 
+    if bits_per_sample * n_channels != 8 * block_align:
+        raise ValueError("Invalid header is detected.")
+
     return n_channels, sample_rate, block_align
 
 
-- 
2.43.0


From dc1197042917ca02eca8dd7672312014a42a6b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 12/17] fix: return global minimum of LQPQM when v is
 orthogonal to top eigenspace

---
 ssspy/linalg/lqpqm.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index ca362e4..ae99cd3 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -108,9 +108,20 @@ def lqpqm2(
         normalization=True,
     )
 
+    # When v has (almost) no component in eigenspace of maximum eigenvalue, solution of equation
+    # may be less than maximum eigenvalue, where stationary point is not minimum but saddle point.
+    phi_max_non_singular = phi_non_singular[:, -1]
+    lamb_non_singular = np.maximum(lamb_non_singular, phi_max_non_singular)
+
     num = phi_non_singular * v_tilde_non_singular
     denom = lamb_non_singular[..., np.newaxis] - phi_non_singular
-    v_nonsingular = num / denom
+    is_saturated = denom <= 0
+    v_nonsingular = np.where(is_saturated, 0, num / np.where(is_saturated, 1, denom))
+    u_non_singular = np.where(is_saturated, 0, v_nonsingular + v_tilde_non_singular)
+    power = np.sum(phi_non_singular * np.abs(u_non_singular) ** 2, axis=-1)
+    scale = (lamb_non_singular - z_non_singular - power) / flooring_fn(phi_max_non_singular)
+    scale = np.sqrt(np.maximum(scale, 0))
+    v_nonsingular[:, -1] += np.where(is_saturated[:, -1], scale, 0)
     y_non_singular = np.sum(sigma_non_singular * v_nonsingular[:, np.newaxis, :], axis=-1)
 
     y = np.zeros_like(v)
-- 
2.43.0


From 5173befed183cf0d71edb44bfae0d46615a1bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 13/17] fix: use eigenvector of maximum eigenvalue in singular
 case of LQPQM

---
 ssspy/linalg/lqpqm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index ae99cd3..39e200f 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -83,7 +83,7 @@ def lqpqm2(
     z_singular = z[is_singular]
 
     phi_max_singular = phi_singular[:, -1]
-    sigma_max_singular = sigma_singular[:, -1]
+    sigma_max_singular = sigma_singular[:, :, -1]
     lamb_singular = np.maximum(z_singular, phi_max_singular)
     scale = (lamb_singular - z_singular) / phi_max_singular
     scale = np.maximum(scale, 0)
-- 
2.43.0


From 6b4e049cb470762e03a866c9504660a0149ad6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 14/17] fix: key cached dataset files by tag and reverberation
 time

A later request for another SiSEC2010 tag or MIRD reverberation time with the
same root returned the recordings cached by the first one.
---
 ssspy/utils/dataset/mird.py      | 2 +-
 ssspy/utils/dataset/sisec2010.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index c6cd52e..5761aa8 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -50,7 +50,7 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
     if not os.path.exists(rir_path):
         shutil.unpack_archive(zip_path, root)
 
-    npz_path = os.path.join(root, "MIRD-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "MIRD-{:.3f}s-{}ch.npz".format(reverb_duration, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 44af6e8..389d8c8 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -33,7 +33,7 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
     channels = channels[:n_sources]
 
     n_channels = len(channels)
-    npz_path = os.path.join(root, "SiSEC2010-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "SiSEC2010-{}-{}ch.npz".format(tag, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
-- 
2.43.0


From 01170892b98bb85ec24b90286938d2effc623fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 15/17] fix: detect vanishing linear term of LQPQM without
 flooring function

---
 ssspy/bss/_update_spatial_model.py | 2 +-
 ssspy/linalg/lqpqm.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/_update_spatial_model.py b/ssspy/bss/_update_spatial_model.py
index 01fde1b..a3542b3 100644
--- a/ssspy/bss/_update_spatial_model.py
+++ b/ssspy/bss/_update_spatial_model.py
@@ -483,7 +483,7 @@ def update_by_ipa(
             v_n,
             z_n,
             flooring_fn=flooring_fn,
-            singular_fn=lambda x: x < flooring_fn(0),
+            singular_fn=lambda x: x <= flooring_fn(0),
             max_iter=max_iter,
         )
 
diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index 39e200f..c888a5f 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -67,7 +67,7 @@ def lqpqm2(
     elif singular_fn == "flooring":
 
         def _is_lower_than_floor(x: np.ndarray) -> np.ndarray:
-            return x < flooring_fn(0)
+            return x <= flooring_fn(0)
 
         singular_fn = _is_lower_than_floor
     else:
-- 
2.43.0


From 02ccb71028368e0ce72fdd1d28b503b3da089b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 16/17] fix: update demixing filters of single-bin blocks in
 IPSDTA without flooring function

---
 ssspy/bss/ipsdta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index cdfcdf1..3d39514 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -1102,7 +1102,7 @@ class GaussIPSDTA(BlockDecompositionIPSDTABase):
             RXX = np.mean(R_inverse[:, :, :, :, na, na] * XX[:, :, :, na, :, :], axis=-1)
 
             W = update_by_block_decomposition_vcd(
-                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) < flooring_fn(0)
+                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) <= flooring_fn(0)
             )
 
             return W
@@ -1718,7 +1718,7 @@ class TIPSDTA(BlockDecompositionIPSDTABase):
             RXX = np.mean(pi_R_inverse[:, :, :, :, na, na] * XX[:, :, :, na, :, :], axis=-1)
 
             W = update_by_block_decomposition_vcd(
-                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) < flooring_fn(0)
+                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) <= flooring_fn(0)
             )
 
             return W
-- 
2.43.0


From 66773748efd90005a0ebe40153e31b23741ee4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 17/17] fix: accept flooring_fn=None in update methods

---
 ssspy/utils/flooring.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ssspy/utils/flooring.py b/ssspy/utils/flooring.py
index edcf5db..e56ff3c 100644
--- a/ssspy/utils/flooring.py
+++ b/ssspy/utils/flooring.py
@@ -10,8 +10,6 @@ def choose_flooring_fn(
     method: Optional[Any] = None,
 ) -> Callable[[np.ndarray], np.ndarray]:
     if flooring_fn is None:
-        assert method is None, "method is given, but flooring function is not specified."
-
         flooring_fn = identity
     elif type(flooring_fn) is str and flooring_fn == "self":
         if method is None or not hasattr(method, "flooring_fn"):
-- 
2.43.0

