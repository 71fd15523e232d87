From 7a0db77debefee3ccbe519e177cf34dcefd3d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:35 +0000
Subject: [PATCH 01/10] fix: j_max is off by one when log(L)/log(lam) rounds
 past an integer

j_max(27, 3) returned 4 and j_max(729, 9) returned 4 although lam**3 == L,
adding an empty top wavelet scale on which the transforms fail.
---
 s2wav/samples.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index 771bd09..f71d002 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -573,7 +573,13 @@ def j_max(L: int, lam: float = 2.0) -> int:
     Returns:
         int: The maximum wavelet scale used.
     """
-    return int(np.ceil(np.log(L) / np.log(lam)))
+    J = int(np.ceil(np.log(L) / np.log(lam)))
+    # The quotient of logarithms can round to the wrong side of an integer.
+    if J > 0 and lam ** (J - 1) >= L:
+        J -= 1
+    elif lam**J < L:
+        J += 1
+    return J
 
 
 def wavelet_shape_check(
-- 
2.43.0


From 1f4ce69204b20795b18e66a3f17616ecc64b3d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:35 +0000
Subject: [PATCH 02/10] fix: keep the lower multipole of a scale below its
 band-limit

For fractional lam the top scale can start at lam**(J-1) in (L-1, L), where
L0j = ceil(lam**(J-1)) == L == Lj, an empty range the Wigner transforms reject
(e.g. L=6, lam=1.5).
---
 s2wav/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index f71d002..fd6bd69 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -122,7 +122,7 @@ def LN_j(
     if j == 0:
         j += 1
     Lj = wav_j_bandlimit(L, j, lam, multiresolution)
-    L0j = L0_j(j, lam) if multiresolution else 0
+    L0j = min(L0_j(j, lam), Lj - 1) if multiresolution else 0
     Nj = N
     if multiresolution:
         Nj = min(N, Lj)
-- 
2.43.0


From 249ecb369d1fbdad3822303ea1171808c377b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:35 +0000
Subject: [PATCH 03/10] fix: vectorised and JAX spin normalisation of
 spin-lowered filters

Both raised a reshape error for every spin0 != 0, and multiplied el by the
offsets instead of adding them; they now agree with the looped version.
---
 s2wav/filters.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index fe8c457..22ee74f 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -660,9 +660,11 @@ def _spin_normalization_vectorised(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = np.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return np.sqrt(np.prod(factor, axis=1) ** (np.sign(spin)))
+    factor = np.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin))
+    factor = np.prod(el.reshape(len(el), 1) + factor, axis=1, dtype=np.float64)
+    # Undefined for el < |spin|, which the filters set to zero.
+    factor = np.where(el < abs(spin), 1.0, factor)
+    return np.sqrt(factor if spin > 0 else 1.0 / factor)
 
 
 @partial(jit, static_argnums=(0, 1))
@@ -724,6 +726,8 @@ def _spin_normalization_jax(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = jnp.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return jnp.sqrt(jnp.prod(factor, axis=1) ** (jnp.sign(spin)))
+    factor = jnp.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin))
+    factor = jnp.prod(el.reshape(len(el), 1) + factor, axis=1, dtype=jnp.float64)
+    # Undefined for el < |spin|, which the filters set to zero.
+    factor = jnp.where(el < abs(spin), 1.0, factor)
+    return jnp.sqrt(factor if spin > 0 else 1.0 / factor)
-- 
2.43.0


From 31be2e55c66f413c619752b900ce898238d6abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:35 +0000
Subject: [PATCH 04/10] fix: kernel of the highest scale in precompute
 flm_to_analysis with J_max

The kernel list only omits the duplicated scale j_max(L, lam), so with
J_max below it scale J_max took the kernel of the scale underneath.
---
 s2wav/transforms/wavelet_precompute.py       | 2 +-
 s2wav/transforms/wavelet_precompute_torch.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index a9d1487..a1975f7 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -303,7 +303,7 @@ def flm_to_analysis(
                 )
             )
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         shift = shift if _precomp_shift else 0
 
         f_wav.append(
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 9abeac0..2eb1a9d 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -283,7 +283,7 @@ def flm_to_analysis(
             flm[L0j:Lj, L - Lj : L - 1 + Lj],
             wav_lm[j, L0j:Lj, L - Nj : L - 1 + Nj : 2],
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         f_wav[j - J_min] = wigner.inverse_transform_torch(
             f_wav_lmn[j - J_min],
             precomps[2][j - J_min + shift],
-- 
2.43.0


From 2d756aaf1b8c41ad8377a48b175c6bc884a04e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:56 +0000
Subject: [PATCH 05/10] fix: scaling coefficients of shape f_scal when the
 scaling band-limit is 1

For J_min=0 the edge case returned a (1, 1) array for every sampling, not the
shape samples.f_scal documents (mwss, dh, healpix), which the C backend
synthesis and the shape check then reject.
---
 s2wav/transforms/wavelet.py                  | 4 +++-
 s2wav/transforms/wavelet_c.py                | 4 +++-
 s2wav/transforms/wavelet_precompute.py       | 4 +++-
 s2wav/transforms/wavelet_precompute_torch.py | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index 9410e82..6f208c9 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -204,7 +204,9 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = jnp.sqrt(1 / (4 * jnp.pi)) * jnp.broadcast_to(
+            temp[0, 0], samples.f_scal(L, J_min, lam, sampling, nside, True)
+        )
     else:
         f_scal = s2fft.inverse_jax(temp, Ls, spin, nside, sampling, reality)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index ad5238d..fb7ffab 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -147,7 +147,9 @@ def analysis(
         )
 
     if Ls == 1:
-        f_scal = flm_scal * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = jnp.sqrt(1 / (4 * jnp.pi)) * jnp.broadcast_to(
+            flm_scal[0, 0], samples.f_scal(L, J_min, lam, sampling, None, True)
+        )
     else:
         f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index a1975f7..28d22a4 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -212,7 +212,9 @@ def analysis(
     temp = jnp.einsum("lm,l->lm", flm[:Ls, L - Ls : L - 1 + Ls], phi, optimize=True)
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = jnp.sqrt(1 / (4 * jnp.pi)) * jnp.broadcast_to(
+            temp[0, 0], samples.f_scal(L, J_min, lam, sampling, nside, True)
+        )
     else:
         f_scal = spherical.inverse_transform_jax(
             temp, precomps[1], Ls, sampling, reality, spin, nside
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 2eb1a9d..ce5f76c 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -201,8 +201,10 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * torch.sqrt(
+        f_scal = torch.sqrt(
             torch.tensor(1 / (4 * torch.pi), dtype=torch.float64)
+        ) * temp[0, 0].expand(
+            samples.f_scal(L, J_min, lam, sampling, nside, True)
         )
     else:
         f_scal = spherical.inverse_transform_torch(
-- 
2.43.0


From 67866e7c15e445a2aacb887dffa50a0f07f3fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:56 +0000
Subject: [PATCH 06/10] fix: spherical precompute kernels for spin signals

generate_full_precomputes always built spin 0 kernels, so the precompute
transforms were wrong for every spin != 0; the kernels now take the spin.
---
 s2wav/transforms/construct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/construct.py b/s2wav/transforms/construct.py
index 42a2497..6cdf04a 100644
--- a/s2wav/transforms/construct.py
+++ b/s2wav/transforms/construct.py
@@ -21,6 +21,7 @@ def generate_full_precomputes(
     reality: bool = False,
     nospherical: bool = False,
     using_torch: bool = False,
+    spin: int = 0,
 ) -> List[jnp.ndarray]:
     r"""Generates a list of precompute arrays associated with the underlying Wigner
     transforms.
@@ -51,6 +52,8 @@ def generate_full_precomputes(
 
         using_torch (bool, optional): Desired frontend functionality. Defaults to False.
 
+        spin (int, optional): Spin (integer) of input signal. Defaults to 0.
+
     Returns:
         List[jnp.ndarray]: Precomputed recursion arrays for underlying Wigner transforms.
     """
@@ -66,10 +69,10 @@ def generate_full_precomputes(
     if nospherical:
         return [], [], precomps
     precompute_scaling = spin_spherical_kernel_jax(
-        Ls, 0, reality, sampling, nside, forward
+        Ls, spin, reality, sampling, nside, forward
     )
     precompute_full = spin_spherical_kernel_jax(
-        L, 0, reality, sampling, nside, not forward
+        L, spin, reality, sampling, nside, not forward
     )
 
     if using_torch:
-- 
2.43.0


From 266263b4b40745bb351f016c26445d5574d0db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:14 +0000
Subject: [PATCH 07/10] fix: C backend with a scaling band-limit not above
 |spin|

ssht rejects band-limits without a multipole >= |spin|, so both transforms
raised for e.g. spin=2, J_min<=1; the scaling coefficients vanish there.
---
 s2wav/transforms/wavelet_c.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index fb7ffab..8fe8038 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -67,9 +67,13 @@ def synthesis(
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
-    f_scal_lm = ssht_forward(
-        f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
-    )
+    # Multipoles below |spin| vanish, ssht rejects band-limits without any other
+    if abs(spin) >= Ls:
+        f_scal_lm = jnp.zeros((Ls, 2 * Ls - 1), dtype=jnp.complex128)
+    else:
+        f_scal_lm = ssht_forward(
+            f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
+        )
     f_wav_lmn = []
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
@@ -146,7 +150,7 @@ def analysis(
             )
         )
 
-    if Ls == 1:
+    if Ls == 1 or abs(spin) >= Ls:
         f_scal = jnp.sqrt(1 / (4 * jnp.pi)) * jnp.broadcast_to(
             flm_scal[0, 0], samples.f_scal(L, J_min, lam, sampling, None, True)
         )
-- 
2.43.0


From 6ba5a97a484e2a11fae21bdf595c048a82035920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:35 +0000
Subject: [PATCH 08/10] fix: build the wavelet filters when none are given

filters defaults to None and the documentation calls s2wav.analysis(f, L, N),
but every transform then raised a TypeError; None now means the tiling filters.
---
 s2wav/transforms/wavelet.py                  |  8 ++++++++
 s2wav/transforms/wavelet_c.py                |  8 ++++++++
 s2wav/transforms/wavelet_precompute.py       |  7 +++++++
 s2wav/transforms/wavelet_precompute_torch.py | 11 +++++++++++
 4 files changed, 34 insertions(+)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index 6f208c9..aabde3a 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -4,6 +4,7 @@ from functools import partial
 from typing import Tuple, List
 import s2fft
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 from s2wav.transforms import construct
 
 
@@ -70,6 +71,8 @@ def synthesis(
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, True, reality
         )
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
 
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
@@ -155,6 +158,9 @@ def analysis(
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, False, reality
         )
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     wav_lm = jnp.einsum(
@@ -263,6 +269,8 @@ def flm_to_analysis(
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, False, reality
         )
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam)[0]
 
     J = J_max if J_max is not None else samples.j_max(L, lam)
     wav_lm = jnp.einsum(
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index 8fe8038..6a9efbe 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -5,6 +5,7 @@ from functools import partial
 import s2fft
 from s2fft.transforms.c_backend_spherical import ssht_forward, ssht_inverse
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 def synthesis(
@@ -63,6 +64,8 @@ def synthesis(
     if sampling.lower() == "healpix":
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
 
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
@@ -133,6 +136,8 @@ def analysis(
     if sampling.lower() == "healpix":
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
 
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
@@ -197,6 +202,9 @@ def flm_to_analysis(
         f_wav (jnp.ndarray): Array of wavelet pixel-space coefficients
             with shape :math:`[n_{J}, 2N-1, n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam)[0]
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
     f_wav_lmn = _generate_and_apply_wavelets(flm, L, N, J_min, J, lam, filters)
 
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index 28d22a4..3dd1c88 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -4,6 +4,7 @@ from functools import partial
 from typing import Tuple, List
 from s2fft.precompute_transforms import wigner, spherical
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 @partial(jit, static_argnums=(2, 3, 4, 5, 6, 7, 8, 9))
@@ -70,6 +71,8 @@ def synthesis(
     """
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
 
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
@@ -163,6 +166,8 @@ def analysis(
     """
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
 
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
@@ -278,6 +283,8 @@ def flm_to_analysis(
     """
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam)[0]
 
     J = J_max if J_max is not None else samples.j_max(L, lam)
     wav_lm = jnp.einsum(
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index ce5f76c..ea23854 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -2,6 +2,7 @@ import torch
 from typing import Tuple, List
 from s2fft.precompute_transforms import wigner, spherical
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 def synthesis(
@@ -67,6 +68,10 @@ def synthesis(
     """
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
+    if filters is None:
+        filters = filters_directional_vectorised(
+            L, N, J_min, lam, spin, using_torch=True
+        )
 
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
@@ -156,6 +161,10 @@ def analysis(
     """
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
+    if filters is None:
+        filters = filters_directional_vectorised(
+            L, N, J_min, lam, spin, using_torch=True
+        )
 
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
@@ -264,6 +273,8 @@ def flm_to_analysis(
     """
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, using_torch=True)[0]
 
     J = J_max if J_max is not None else samples.j_max(L, lam)
 
-- 
2.43.0


From 04293d204d038512768c58b5022fe3e28c4a256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:20 +0000
Subject: [PATCH 09/10] fix: tiling integrand at the ends of its support

Rounding of the quadrature nodes could reach |s_arg| >= 1, which made the
filters infinite or NaN (lam=5, 7) or raised ZeroDivisionError (lam=10).
---
 s2wav/filters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index 22ee74f..9545d5e 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -371,7 +371,9 @@ def tiling_integrand(t: float, lam: float = 2.0) -> float:
     """
     s_arg = (t - (1.0 / lam)) * (2.0 * lam / (lam - 1.0)) - 1.0
 
-    integrand = np.exp(-2.0 / (1.0 - s_arg**2.0)) / t
+    # The tiling function vanishes for |s_arg| >= 1, which rounding can reach.
+    support = np.maximum(1.0 - s_arg**2.0, np.finfo(np.float64).tiny)
+    integrand = np.exp(-2.0 / support) / t
 
     return integrand
 
-- 
2.43.0


From 9c1731e71bb977c575670aaa0caa164707110192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:04 +0000
Subject: [PATCH 10/10] fix: JAX directional tiling for N >= 64

2**gamma no longer fits a 64-bit integer from gamma = 63 on.
---
 s2wav/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index 9545d5e..fb392a1 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -706,7 +706,7 @@ def tiling_direction_jax(L: int, N: int = 1) -> np.ndarray:
 
         ms = jnp.arange(-el, el + 1)
         val = nu * jnp.sqrt(
-            (samples.binomial_coefficient_jax(gamma, ((gamma - ms) / 2))) / (2**gamma)
+            (samples.binomial_coefficient_jax(gamma, ((gamma - ms) / 2))) / (2.0**gamma)
         )
 
         val = jnp.where(
-- 
2.43.0

