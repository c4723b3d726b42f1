From c4510eef26f07805548afdb0fc6d1a0d838930b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 01/12] fix: simulate the LCOS phase with the sign the hologram
 algorithms use

calculate_hologram solves for exp(+i*state); the simulation applied exp(-i*state),
so the simulated image was the point reflection of the requested target.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index ee77e05..9ad99fd 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -482,7 +482,7 @@ class LCOS_SLM(SLM):
         self.slm_state = np.zeros(shape=(self.Ny, self.Nx), dtype=complex)
 
     def _state_tensor(self):
-        return tf.exp(-1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
+        return tf.exp(1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
 
     def calculate_hologram(self, input_profile, target_amp_profile, method="gs", **kwargs):
         '''
-- 
2.43.0


From 578131249d7e899b8345398e5f111223f05cc61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 02/12] fix: account for the phase of the input beam in the gs
 and mraf holograms

The SLM adds its phase to the phase of the illumination, so the hologram is the
back-propagated phase minus the phase of the input profile.
---
 pySLM2/_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index 16237a5..13baa35 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -350,7 +350,7 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         profile_angle = tf.math.angle(image_plane_profile)
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * tf.math.conj(input_profile))
 
     return phase_profile
 
@@ -399,6 +399,6 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = mixing_factor * target_amp_profile * tf.exp(1j * profile_angle) * signal_window + \
                             one_minus_m * image_plane_profile * inverse_signal_window
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * tf.math.conj(input_profile))
 
     return phase_profile
-- 
2.43.0


From 4ece54c2ea29a079e1bc2335e5d3d454f575218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 03/12] fix: profile_to_tensor always returns a tensor of the
 size of the SLM

Numbers and ConstantProfile produced a rank 0 tensor, which the simulation and
the hologram algorithms reject although they document that numbers are accepted.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 9ad99fd..0c5b449 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -162,7 +162,7 @@ class SLM(object):
             tensor = tf.constant(profile, dtype=tensor_dtype)
         if tensor.dtype != tensor_dtype:
             tensor = tf.cast(tensor, dtype=tensor_dtype)
-        return tensor
+        return tf.broadcast_to(tensor, (self.Ny, self.Nx))
 
     def _state_tensor(self):
         raise NotImplementedError
-- 
2.43.0


From c15f3994efcb5b4b0f3926d1d678c8071982bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 04/12] fix: reading Zernike.n and Zernike.m raised
 AttributeError

---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 2480be7..a5af0a8 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -451,8 +451,8 @@ class Zernike(FunctionProfile):
 
     @property
     def n(self):
-        return self._n.value()
+        return int(self._n)
 
     @property
     def m(self):
-        return self._m.value()
+        return int(self._m)
-- 
2.43.0


From fa0dcc47bebd1f73b063acd14c9af9f0f9c28498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 05/12] fix: reject Zernike indices with m < -n

They passed the validation and silently gave a profile that is zero everywhere.
---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index a5af0a8..4232e5b 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -379,8 +379,8 @@ class SuperGaussian(FunctionProfile):
 
 class Zernike(FunctionProfile):
     def __init__(self, a, radius, n=0, m=0, normalize=True, extrapolate=False):
-        if not n >= m:
-            raise ValueError("Zernike index m must be >= index n")
+        if not n >= abs(m):
+            raise ValueError("Zernike index n must be >= the absolute value of index m")
 
         if (n - m) % 2 != 0:
             raise ValueError("Radial polynomial is zero for these inputs: m={}, n={} " +
-- 
2.43.0


From 21d3579c68ab616c1464acf37ec7a55a6e9e9d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 06/12] fix: circular_patch keeps the grey levels of the ideal
 method

The patch was written into the existing boolean array, which turned every
non-zero grey level into a mirror that is fully on.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 0c5b449..f8ebafb 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -265,7 +265,7 @@ class DMD(SLM):
         dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,
                                                         method=method, negative_order=self.negative_order, **kwargs))
 
-        self.dmd_state[mask] = dmd_state[mask]
+        self.dmd_state = np.where(mask, dmd_state, self.dmd_state)
 
     @staticmethod
     @tf.function
-- 
2.43.0


From b42261ad36c049b7eacdbd255ad771c9fbc75ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:01 +0000
Subject: [PATCH 07/12] fix: ALPController.load_single displays the image after
 load_multiple

load_multiple leaves the device in slave mode, where a single image waits for an
external trigger. load_single now selects the master mode it relies on.
---
 pySLM2/util/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 502d66d..e15d2d5 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -138,7 +138,10 @@ class ALPController(DMDControllerBase):
         """
         # Prepare the dmd in available state
         self.alp.Halt()
-        
+
+        # Leave the slave mode set by load_multiple, the image is displayed without waiting for a trigger
+        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=1, bitDepth=1)
 
-- 
2.43.0


From 5a5d8a2d8b273520961c2d14b3c9faabf4206093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:01 +0000
Subject: [PATCH 08/12] fix: ALPController frees the previous sequence before
 loading the next one

Every load allocated onboard memory that was not released until the device was
freed, so repeated loads exhausted the memory of the controller.
---
 pySLM2/util/controller.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index e15d2d5..a02d0ab 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -111,9 +111,14 @@ class ALPController(DMDControllerBase):
 
     def close(self):
         self.alp.Halt()
+        self._free_sequence()
+        self.alp.Free()
+
+    def _free_sequence(self):
+        # Release the onboard memory of the last loaded sequence
         if self.alp._lastDDRseq is not None:
             self.alp.FreeSeq()
-        self.alp.Free()
+            self.alp._lastDDRseq = None
 
     @property
     @_check_initialization
@@ -138,6 +143,7 @@ class ALPController(DMDControllerBase):
         """
         # Prepare the dmd in available state
         self.alp.Halt()
+        self._free_sequence()
 
         # Leave the slave mode set by load_multiple, the image is displayed without waiting for a trigger
         self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
@@ -169,6 +175,7 @@ class ALPController(DMDControllerBase):
         """
         # Prepare the dmd in available state
         self.alp.Halt()
+        self._free_sequence()
 
         # Set to slave mode
         self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_SLAVE)
-- 
2.43.0


From 0343fed84029f174e242ccbd794702eedd8460a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:01 +0000
Subject: [PATCH 09/12] fix: a closed controller no longer counts as
 initialized

close() left the initialized flag set, so later calls passed the initialization
check and drove a released device.
---
 pySLM2/util/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index a02d0ab..515d89e 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -42,7 +42,7 @@ class DMDControllerBase(object):
         return self._initialized
 
     def close(self):
-        pass
+        self._initialized = False
 
     @_check_initialization
     def load_single(self, dmd_state):
@@ -113,6 +113,7 @@ class ALPController(DMDControllerBase):
         self.alp.Halt()
         self._free_sequence()
         self.alp.Free()
+        super(ALPController, self).close()
 
     def _free_sequence(self):
         # Release the onboard memory of the last loaded sequence
@@ -252,7 +253,7 @@ class LuxbeamController(DMDControllerBase):
         super(LuxbeamController, self).initialize()
 
     def close(self):
-        pass
+        super(LuxbeamController, self).close()
 
     @_check_initialization
     def load_single(self, dmd_state):
-- 
2.43.0


From 8cfe40b30d3479ac399f3e5ececc07482478a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:01 +0000
Subject: [PATCH 10/12] fix: ALPController can be used in a with statement

It defined __exit__ without __enter__.
---
 pySLM2/util/controller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 515d89e..0952635 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -199,6 +199,9 @@ class ALPController(DMDControllerBase):
         self.alp.Run()
 
 
+    def __enter__(self):
+        return self
+
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.close()
 
-- 
2.43.0


From 93ba9c3d9089ffa38837c65843dfda22511d5464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:32 +0000
Subject: [PATCH 11/12] fix: calculate_dmd_state leaves the device unchanged
 when the efficiency cannot be computed

---
 pySLM2/slm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index f8ebafb..820dd71 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -367,12 +367,13 @@ class DMD(SLM):
             kwargs["signal_window"] = self.profile_to_tensor(kwargs["signal_window"], at_fourier_plane=False,
                                                              complex=True)
 
+        eta = self.pixel_size ** 2 / self.scaling_factor * self.Nx * self.Ny / float(one_over_eta_fft)
+
         self.dmd_state = np.array(
             _lib.calculate_dmd_grating(amp_scaled, phase_in, phase_out, x, y, self._p, self._theta,
                                        method=method, negative_order=self.negative_order,
                                        **kwargs))
 
-        eta = self.pixel_size ** 2 / self.scaling_factor * self.Nx * self.Ny / float(one_over_eta_fft)
         return eta
 
     @property
-- 
2.43.0


From 4e094a182336efc0f1b96436f5b8193ddc8672c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:16 +0000
Subject: [PATCH 12/12] fix: store the precision as a TensorFlow dtype when it
 is set by a NumPy type or a name

---
 pySLM2/_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/_backend.py b/pySLM2/_backend.py
index ecab800..77e84fc 100644
--- a/pySLM2/_backend.py
+++ b/pySLM2/_backend.py
@@ -32,7 +32,7 @@ class _BackEnd(object):
         if not (value == tf.float32 or value == tf.float64):
             raise ValueError()
         else:
-            self._dtype = value
+            self._dtype = tf.as_dtype(value)
 
     @property
     def dtype_complex(self):
-- 
2.43.0

