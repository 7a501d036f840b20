From f60601ca5740580095055e79443fd5e4f79243c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:44 +0000
Subject: [PATCH 01/49] fix: SSFM.propagate used np.float, which numpy removed,
 and could not run

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 91cc905..091a04e 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -524,7 +524,7 @@ class SSFM:
         
 
         for i in range(n_steps):                        
-            print ("Step:", i, "Distance remaining:", fiber.length * (1 - np.float(i)/n_steps) )
+            print ("Step:", i, "Distance remaining:", fiber.length * (1 - float(i)/n_steps) )
             
             if reload_fiber_each_step:
                 self.load_fiber_parameters(pulse_in, fiber, output_power, z=i*delta_z) 
-- 
2.43.0


From 365f3c97ac108f286d231ece0a1b87e1b1ca00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:02 +0000
Subject: [PATCH 02/49] fix: Pulse wavelength and frequency caches ignored the
 time window, could be left stale by an interrupt or a second thread, and were
 returned by reference

---
 src/pynlo/light/PulseBase.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 0b9b249..aa1aa3a 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -62,11 +62,10 @@ class Pulse:
     _c_mks  = None
     # Cached values for expensive functions that I have identified as widely-used
     # in a profiler. Note that this is a sparse list...
+    # Each is a tuple of the cache_hash it was computed for and the grid.
     # Wavelength
-    _cache_wl_nm_hash               = None
     _cache_wl_nm                    = None
-    # Frequency in THz
-    _cache_W_Hz_hash                = None
+    # Frequency in Hz
     _cache_W_Hz                     = None
     
     _not_ready_msg = 'Pulse class is not yet ready -- set center wavelength, time window, and npts.'    
@@ -125,12 +124,14 @@ class Pulse:
     
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_nm(self):
-        if (self.cache_hash == self._cache_wl_nm_hash):
-           return self._cache_wl_nm
-        else:
-           self._cache_wl_nm_hash = self.cache_hash
-           self._cache_wl_nm = 2*np.pi*self._c_nmps / self.W_THz
-           return self._cache_wl_nm
+        key    = self.cache_hash
+        cached = self._cache_wl_nm
+        if cached is None or cached[0] != key:
+           # Key and grid are stored together, so that neither an interrupt nor
+           # another thread can pair a new key with an old grid.
+           cached = (key, 2*np.pi*self._c_nmps / self.W_THz)
+           self._cache_wl_nm = cached
+        return cached[1].copy()
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_m(self):    
         return 2*np.pi*self._c_mks / self.W_mks
@@ -146,14 +147,15 @@ class Pulse:
     def _get_NPTS(self):
         return self._n
     def _get_hash(self):
-        return str(self._centerfrequency)+str(self.NPTS)    
+        return '/'.join((str(self._centerfrequency), str(self.NPTS), 
+                         str(self._time_window)))
     def _get_W_Hz(self):
-        if (self._cache_W_Hz_hash == self.cache_hash):
-            return self._cache_W_Hz
-        else:
-            self._cache_W_Hz_hash = self.cache_hash
-            self._cache_W_Hz                 =  self._W * 1e12
-            return self._cache_W_Hz
+        key    = self.cache_hash
+        cached = self._cache_W_Hz
+        if cached is None or cached[0] != key:
+            cached = (key, self._W * 1e12)
+            self._cache_W_Hz = cached
+        return cached[1].copy()
     def _get_F_Hz(self):
         return self._get_W_Hz() / (2.0*np.pi)            
     def _get_W_THz(self):
-- 
2.43.0


From 39a55f663d9dc5aa4bd970e53e8018338782ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:02 +0000
Subject: [PATCH 03/49] fix: Pulse.center_wavelength_mks was 1e18 too large

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index aa1aa3a..4c11bce 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -138,7 +138,7 @@ class Pulse:
     def _get_center_wavelength_nm(self):
         return self._c_nmps / self._centerfrequency
     def _get_center_wavelength_mks(self):
-        return (self._c_nmps / self._centerfrequency )*1.0e9
+        return (self._c_nmps / self._centerfrequency )*1.0e-9
     def _get_center_frequency_THz(self):
         return self._centerfrequency        
     def _get_center_frequency_mks(self):
-- 
2.43.0


From a365ca5a74fa63b75d78f8afbda03d9eb8d37ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:38 +0000
Subject: [PATCH 04/49] fix: Pulse.set_AW failed after the number of points
 changed, so clone_pulse and load_pulse_dict could not reuse a pulse of
 another size

---
 src/pynlo/light/PulseBase.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 4c11bce..4570d46 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -213,9 +213,13 @@ class Pulse:
         """
         if not self._ready:
             raise RuntimeError(self._not_ready_msg)
-        if self._AW is None:
-            self._AW = np.zeros((self._n,), dtype = np.complex128)
-        self._AW[:] = AW_new
+        if self._AW is None or len(self._AW) != self._n:
+            # The field is replaced only once the new one has been accepted
+            AW = np.zeros((self._n,), dtype = np.complex128)
+            AW[:] = AW_new
+            self._AW = AW
+        else:
+            self._AW[:] = AW_new
         
     def set_AT(self, AT_new):
         r""" Set the value of the time-domain electric field.
-- 
2.43.0


From bf912f2dfa3dfd3a77520649492411b0a6f708a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:38 +0000
Subject: [PATCH 05/49] fix: expand_time_window with an invalid new_pts_loc
 destroyed the pulse before raising

---
 src/pynlo/light/PulseBase.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 4570d46..173ce03 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -760,21 +760,23 @@ class Pulse:
         num_new_pts = self.NPTS*(2**factor_log2 - 1)
         AT_current = self.AT
         
-        self.set_NPTS(self.NPTS * 2**factor_log2)        
-        self.set_time_window_ps(self.time_window_ps * 2**factor_log2)
-        self._AW = None # Force generation of new array
         if new_pts_loc == "before":
-            self.set_AT(np.hstack( (np.zeros(num_new_pts,), AT_current) ))
+            AT_new = np.hstack( (np.zeros(num_new_pts,), AT_current) )
         elif new_pts_loc == "after":
-            self.set_AT(np.hstack( (AT_current, np.zeros(num_new_pts,)) ))            
+            AT_new = np.hstack( (AT_current, np.zeros(num_new_pts,)) )
         elif new_pts_loc == "even":
             pts_before = int(np.floor(num_new_pts * 0.5))
             pts_after  = num_new_pts - pts_before
-            self.set_AT(np.hstack( (np.zeros(pts_before,), 
-                                    AT_current, 
-                                    np.zeros(pts_after,)) ))            
+            AT_new = np.hstack( (np.zeros(pts_before,), 
+                                 AT_current, 
+                                 np.zeros(pts_after,)) )
         else:
             raise ValueError("new_pts_loc must be one of 'before', 'after', 'even'")
+
+        self.set_NPTS(self.NPTS * 2**factor_log2)        
+        self.set_time_window_ps(self.time_window_ps * 2**factor_log2)
+        self._AW = None # Force generation of new array
+        self.set_AT(AT_new)
     def rotate_spectrum_to_new_center_wl(self, new_center_wl_nm):
         """Change center wavelength of pulse by rotating the electric field in
             the frequency domain. Designed for creating multiple pulses with same
-- 
2.43.0


From 7ba5a09eceeeba9cd02c6dff658fe7a95de43ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:38 +0000
Subject: [PATCH 06/49] fix: clone_pulse and load_pulse_dict left the pulse
 half-changed when the source was incomplete

---
 src/pynlo/light/PulseBase.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 173ce03..7e132c1 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -814,11 +814,12 @@ class Pulse:
         self.set_AW(AW_new)        
     def clone_pulse(self, p):
         '''Copy all parameters of pulse_instance into this one'''
+        AT = p.AT # Raises if p has no field; do so before changing anything
         self.set_NPTS(p.NPTS)
         self.set_time_window_ps(p.time_window_ps)
         self.set_center_wavelength_nm(p.center_wavelength_nm)
         self._frep_MHz = p.frep_MHz
-        self.set_AT(p.AT)
+        self.set_AT(AT)
     def get_pulse_dict(self):
         d = {"NPTS" : self.NPTS,
              "time_window_ps" : self.time_window_ps,
@@ -828,11 +829,18 @@ class Pulse:
              "AT_im" : self.AT.imag.tolist()}
         return d
     def load_pulse_dict(self, d):    
-        self.set_NPTS(d["NPTS"])
-        self.set_time_window_ps(d["time_window_ps"])
-        self.set_center_wavelength_nm(d["center_wavelength_nm"])
-        self._frep_MHz = d["frep_MHz"]
-        self.set_AT(np.array(d["AT_re"]) + 1j*np.array(d["AT_im"]) )
+        # Read everything before changing anything, so that an incomplete
+        # dictionary leaves this pulse as it was.
+        AT = np.array(d["AT_re"]) + 1j*np.array(d["AT_im"])
+        NPTS, time_window_ps = int(d["NPTS"]), d["time_window_ps"]
+        center_wavelength_nm, frep_MHz = d["center_wavelength_nm"], d["frep_MHz"]
+        if AT.shape != (NPTS,):
+            raise ValueError("Field in pulse dictionary does not have NPTS points.")
+        self.set_NPTS(NPTS)
+        self.set_time_window_ps(time_window_ps)
+        self.set_center_wavelength_nm(center_wavelength_nm)
+        self._frep_MHz = frep_MHz
+        self.set_AT(AT)
     def create_cloned_pulse(self):
         '''Create and return new pulse instance identical to this instance.'''
         p = Pulse()
-- 
2.43.0


From 7d4521127ba9c441229afb09e409d5351811457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:12 +0000
Subject: [PATCH 07/49] fix: write_frog called methods that do not exist and
 ignored flip_phase, so a pulse could not be saved

---
 src/pynlo/light/PulseBase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 7e132c1..e5a8211 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -906,9 +906,11 @@ class Pulse:
         is multiplied by frep to calculate pulse energy"""       
         
         self.fileloc   = fileloc             
-        phase_data = np.unwrap(np.angle(self.get_AW()))
-        inten_data = np.abs(self.get_AW())
-        wavel_data = self.internal_wl_to_nm(self.wl_nm)
+        phase_data = np.unwrap(np.angle(self.AW))
+        inten_data = np.abs(self.AW)
+        wavel_data = self.wl_nm
+        if flip_phase:
+            phase_data = -1 * phase_data
         
         # Write pulse data file
         np.savetxt(self.fileloc, np.vstack((wavel_data, inten_data, phase_data)).T) 
-- 
2.43.0


From 985d5e21b9883b68c28948bd5c9dab7e99e43465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:12 +0000
Subject: [PATCH 08/49] fix: all StepperDopr853 instances shared one step-size
 controller, so integrations disturbed each other

---
 src/pynlo/util/ode_solve/dopr853.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0c68a69..6096753 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -32,9 +32,11 @@ class StepperDopr853(StepperBase):
     k2= None;k3= None;k4= None; k5= None;k6= None;k7= None;k8= None;k9= None;k10 = None
     rcont1= None;rcont2= None;rcont3= None;rcont4= None;rcont5= None;rcont6= None
     rcont7= None;rcont8 = None
-    con = Controller()
+    con = None
     def __init__(self, yy, dydxx, xx, atoll, rtoll, dens):
         StepperBase.__init__(self, yy,dydxx, xx, atoll, rtoll, dens)
+        # Step size control has memory, so each integration needs its own
+        self.con    = Controller()
         self.yerr2  = self.gen_array()
         self.k2     = self.gen_array()
         self.k3     = self.gen_array()
-- 
2.43.0


From aa26bb2fa4a1973d2cc8b2d8efab88a36620a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:12 +0000
Subject: [PATCH 09/49] fix: a zero error estimate gave a NaN step size, so a
 constant solution could not be integrated

---
 src/pynlo/util/ode_solve/dopr853.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 6096753..e981d86 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -172,7 +172,7 @@ class StepperDopr853(StepperBase):
         err2 = np.sum( pow(np.abs(self.yerr )/sk, 2) )
         err1 = np.sum( pow(np.abs(self.yerr2)/sk, 2) )
         deno = err1 + 0.01 * err2
-        if deno < 0.0:
+        if deno <= 0.0:
             deno = 1.0
         return abs(abs(h) * np.abs(err1) * np.sqrt(1.0 / (deno*self.n)))
         
\ No newline at end of file
-- 
2.43.0


From 1079069cd0e5046684d3dfc68e7895230286b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:12 +0000
Subject: [PATCH 10/49] fix: dense output saved the second step's end point in
 place of a grid point

---
 src/pynlo/util/ode_solve/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index c43ea42..ce094df 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -110,7 +110,7 @@ class Output:
         if not self.dense:
             e = AttributeError('Dense output is not set in Output!')
             raise e
-        if nstp == 1:
+        if nstp == -1: # Initial point, before the first step
             self.save(x,y)
             self.xout += self.dxout
         else:
-- 
2.43.0


From 3010f5a837b909185d3fe2a29f7703a588f97585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:12 +0000
Subject: [PATCH 11/49] fix: integrating with an Output that saves nothing
 crashed

---
 src/pynlo/util/ode_solve/steppers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index ce094df..cb01c39 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -94,11 +94,11 @@ class Output:
         self.xsave[self.count]      = xout
         self.count += 1
     def save(self, x, y):
+        if self.kmax <= 0:
+            return
         if self.ysave.dtype != y.dtype:            
             errmsg = 'Integrand returns ',str(y.dtype),' but workspaces are initialized to ',str(self.ysave.dtype),'!'
             raise TypeError(errmsg)
-        if self.kmax <= 0:
-            return
         if self.count == self.kmax:
             self.resize()
         self.ysave[self.count, :]   = y
-- 
2.43.0


From 815e424cce6583279ce1f75a497c734b3ff16443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 12/49] fix: the crystal index cache was shared by all
 crystals, ignored temperature, angle and data source, and was returned by
 reference

---
 src/pynlo/media/crystals/CrystalContainer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index b6739e6..c71b6ec 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -38,6 +38,7 @@ class Crystal:
                             'damage_threshold_info' : ''}
     
     def __init__(self, params):                
+        self._cached_ns = {}
         if 'length' in params.keys():
             self._length = params['length']
         else:
@@ -47,6 +48,11 @@ class Crystal:
         else:
             self._enable_caching = False
             
+    def _get_n_state(self):
+        """ Return the settings other than wavelength and axis which the index
+            depends on. Results cached under other settings are not used. """
+        return (getattr(self, 'T', None), getattr(self, 'theta', None),
+                getattr(self, 'sellmeier_type', None))
     def set_pp_chirp(self, start, stop):
         self.pp   = lambda x: start + (stop-start) * x /self.length        
     def get_pulse_k(self, pulse_instance, axis = None):
@@ -61,14 +67,16 @@ class Crystal:
         """ Return vector of indices of refraction for the pulse_instance's 
             frequency grid inside the crystal """
         if self._enable_caching:
-            if pulse_instance.cache_hash + str(axis) in self._cached_ns.keys():
-                return self._cached_ns[pulse_instance.cache_hash + str(axis)]
-            else:
+            key = (pulse_instance.cache_hash, axis, self._get_n_state())
+            ns = self._cached_ns.get(key)
+            if ns is None:
                 if axis is None:
                     ns = self.n(pulse_instance.wl_nm)
                 else:
                     ns = self.n(pulse_instance.wl_nm, axis)
-                self._cached_ns[pulse_instance.cache_hash + str(axis)]= ns
+                self._cached_ns[key] = ns
+            # The caller gets its own copy, so that it cannot alter the cache
+            ns = np.copy(ns)
         else:
             if axis is None:
                 ns = self.n(pulse_instance.wl_nm)
-- 
2.43.0


From 9fda61eff04d469fe538b2d7ea1cd546416b6220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 13/49] fix: loading a PPLN crystal changed the damage
 threshold of every other crystal

---
 src/pynlo/media/crystals/CrystalContainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index c71b6ec..cbe4dd3 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -39,6 +39,7 @@ class Crystal:
     
     def __init__(self, params):                
         self._cached_ns = {}
+        self._crystal_properties = dict(Crystal._crystal_properties)
         if 'length' in params.keys():
             self._length = params['length']
         else:
-- 
2.43.0


From 626989c6a69e0bc08f02193411993b12ee25182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 14/49] fix: set_pp_chirp used an attribute that does not
 exist, so chirped poling could not be evaluated

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index cbe4dd3..98a9bc1 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -55,7 +55,7 @@ class Crystal:
         return (getattr(self, 'T', None), getattr(self, 'theta', None),
                 getattr(self, 'sellmeier_type', None))
     def set_pp_chirp(self, start, stop):
-        self.pp   = lambda x: start + (stop-start) * x /self.length        
+        self.pp   = lambda x: start + (stop-start) * x /self.length_mks        
     def get_pulse_k(self, pulse_instance, axis = None):
         """ Return vector of angular wavenumbers (m^-1) for the pulse_instance's 
             frequency grid inside the crystal """
-- 
2.43.0


From 03dfe997bee446a02f1facd6ae5d64361ee0dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:05 +0000
Subject: [PATCH 15/49] fix: fibers shared one description, so configuring one
 fiber changed others and the loaded database

---
 src/pynlo/media/fibers/fiber.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 514bb4e..e5b5631 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -61,6 +61,8 @@ class FiberInstance:
         self.c_mks = constants.speed_of_light
         self.c = constants.speed_of_light * 1e9/1e12 # c in nm/ps
         self.is_simple_fiber = False
+        # Not shared: load_from_file and set_dispersion_function write to it
+        self.fiberspecs = {}
         self.fiberloader = JSONFiberLoader.JSONFiberLoader(fiber_db, 
                                                            fiber_db_dir)
         self.dispersion_changes_with_z = False
@@ -70,7 +72,7 @@ class FiberInstance:
     def load_from_db(self, length, fibertype, poly_order = 2):
         """This loads a fiber from the database. """
         self.fibertype = fibertype
-        self.fiberspecs = self.fiberloader.get_fiber(fibertype)
+        self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
         self.length = length
         self.betas = np.array([0])
         self.gamma = self.fiberspecs["gamma"]
-- 
2.43.0


From a0971a259127caefadce48251eb647f71dd499ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:05 +0000
Subject: [PATCH 16/49] fix: load_from_file of an unreadable file left the
 fiber with a mixture of old and new settings

---
 src/pynlo/media/fibers/fiber.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index e5b5631..fc4ff3a 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -88,6 +88,9 @@ class FiberInstance:
         """
         import os
         
+        # If the file can't be read, the fiber is left as it was
+        x, y = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows, unpack=True)
+
         if fiberName == None:
             self.fibertype = os.path.basename(filename)
         else:
@@ -106,7 +109,7 @@ class FiberInstance:
 
         self.fiberspecs['gain_x_data' ] = None
         
-        self.x, self.y = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows, unpack=True)
+        self.x, self.y = x, y
             
     def load_dispersion(self):
         """This is typically called by the "load_from_db" function. 
-- 
2.43.0


From 9a137622ebb1e400deea77da596dd3a16997cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:05 +0000
Subject: [PATCH 17/49] fix: loading a fiber whose dispersion is given in
 ps^n/m dropped its dispersion

---
 src/pynlo/media/fibers/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index fc4ff3a..e3b0609 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -126,8 +126,9 @@ class FiberInstance:
             self.dispersion_gvd_units = self.fiberspecs["dispersion_gvd_units"]
             self.center_wavelength = self.fiberspecs["dispersion_gvd_center_wavelength"]
             # If in km^-1 units, scale to m^-1
+            self.betas = np.array(self.fiberspecs["dispersion_data"])
             if self.dispersion_gvd_units == 'ps^n/km':
-                self.betas = np.array(self.fiberspecs["dispersion_data"]) / 1e3
+                self.betas = self.betas / 1e3
             return 1
         else:
             print( "Error: no dispersion found.")
-- 
2.43.0


From 2aa03a8adec4ddbe2b45edaac25877d258d0738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 18/49] fix: load_from_db of an unknown fiber renamed the
 current one before raising

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index e3b0609..47f0528 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -71,8 +71,8 @@ class FiberInstance:
         
     def load_from_db(self, length, fibertype, poly_order = 2):
         """This loads a fiber from the database. """
-        self.fibertype = fibertype
         self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
+        self.fibertype = fibertype
         self.length = length
         self.betas = np.array([0])
         self.gamma = self.fiberspecs["gamma"]
-- 
2.43.0


From c5fb6a43e066c11ff4fe0e41867888a419fbefd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 19/49] fix: concurrent get_betas calls on one fiber mixed up
 each other's dispersion

---
 src/pynlo/media/fibers/fiber.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 47f0528..dc51544 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -253,21 +253,27 @@ class FiberInstance:
         """
         
         # if the dispersion changes with z, we need to reload the dispersion:
+        # (the calculation uses the local x, y and betas, as other threads may be
+        # asking this fiber for its betas at another z or for another pulse)
+        x, y, betas = getattr(self, 'x', None), getattr(self, 'y', None), self.betas
         if self.dispersion_changes_with_z:
             if self.fiberspecs["dispersion_format"] == "D" or self.fiberspecs["dispersion_format"] == "n":
-                self.x, self.y = self.dispersion_function(z)
+                x, y = self.dispersion_function(z)
+                self.x, self.y = x, y
             if self.fiberspecs["dispersion_format"] == "GVD":
-                self.betas     = np.array(self.dispersion_function(z))
+                betas      = np.array(self.dispersion_function(z))
+                self.betas = betas
             
         
         B = np.zeros((pulse.NPTS,))
         if self.fiberspecs["dispersion_format"] == "D":
-            self.betas = DTabulationToBetas(pulse.center_wavelength_nm,
-                                            np.transpose(np.vstack((self.x,self.y))),
-                                            self.poly_order,
-                                            DDataIsFile = False)
-            for i in range(len(self.betas)):
-                B = B + self.betas[i]/factorial(i+2)*pulse.V_THz**(i+2)
+            betas = DTabulationToBetas(pulse.center_wavelength_nm,
+                                       np.transpose(np.vstack((x,y))),
+                                       self.poly_order,
+                                       DDataIsFile = False)
+            self.betas = betas
+            for i in range(len(betas)):
+                B = B + betas[i]/factorial(i+2)*pulse.V_THz**(i+2)
             return B
             
         elif self.fiberspecs["dispersion_format"] == "GVD":
@@ -275,18 +281,16 @@ class FiberInstance:
             # w0 is the center of the Taylor expansion, and is defined by the
             # fiber. the w's are from the optical spectrum
             fiber_omega0 =  2*np.pi*self.c / self.center_wavelength # THz
-            betas = self.betas
             for i in range(len(betas)):
-                betas[i] = betas[i]
                 B = B + betas[i] / factorial(i + 2) * (pulse.W_THz-fiber_omega0)**(i + 2)
         
         elif self.fiberspecs["dispersion_format"] == "n":
             # simply interpolate (using a spline) the betas from the refractive index
-            # self.x is the wavelength in nm
-            # self.y is the refractive index (unitless)
+            # x is the wavelength in nm
+            # y is the refractive index (unitless)
             
-            supplied_W_THz = 2 * np.pi * 1e-12 * 3e8 / (self.x*1e-9)
-            supplied_betas = self.y * 2 * np.pi / (self.x * 1e-9)
+            supplied_W_THz = 2 * np.pi * 1e-12 * 3e8 / (x*1e-9)
+            supplied_betas = y * 2 * np.pi / (x * 1e-9)
             
             # InterpolatedUnivariateSpline wants increasing x, so flip arrays
             interpolator = scipy.interpolate.InterpolatedUnivariateSpline(supplied_W_THz[::-1], supplied_betas[::-1]) 
-- 
2.43.0


From ae4a6029266575e7cd3b54559e0c8cb8ebba6f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 20/49] fix: DTabulationToBetas rescaled the caller's table in
 place

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 5499a6c..de9cb0d 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -38,7 +38,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     if DDataIsFile:
         DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
     else:
-        DTab = DData[:]
+        DTab = np.array(DData, dtype = float) # A copy; it is scaled below
             
     # Units of D are ps/nm/km
     # Convert to s/m/m 
-- 
2.43.0


From 535386199dd705332cd139fcf0d785113a9f4c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 21/49] fix: DTabulationToBetas could not read files, as numpy
 removed genfromtxt's skiprows

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index de9cb0d..122c635 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -36,7 +36,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     # Expand about lambda0
     makePlots = 0
     if DDataIsFile:
-        DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
+        DTab = np.genfromtxt(DData,delimiter=',',skip_header=1)
     else:
         DTab = np.array(DData, dtype = float) # A copy; it is scaled below
             
-- 
2.43.0


From dbe99308f22b22e77b4391abd82a60a129c2a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:11 +0000
Subject: [PATCH 22/49] fix: amplifier gain used a pulse repetition rate
 attribute that does not exist

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 4 ++--
 src/pynlo/media/fibers/fiber.py               | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 091a04e..beb180f 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -628,8 +628,8 @@ class SSFM:
                                                  1,
                                                  output_power = scalefactor *\
                                                                  power_goal)         
-        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep))
-        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep                                                                 
+        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep_mks))
+        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep_mks                                                                 
         output_scale = scalefactor
         while abs(modeled_avg_power - power_goal) / power_goal > powertol:
             y, AW, AT, pulse_out = self.propagate(pulse_in, fiber,
diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index dc51544..3ffbbf2 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -334,7 +334,7 @@ class FiberInstance:
                                  bounds_error=False,fill_value=0)
                     gain_spec = f(pulse.W_mks/ (2*np.pi))
 
-                    g = lambda k: np.abs(output_power - pulse.frep_Hz * pulse.dT_mks*
+                    g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
                                         np.trapz(np.abs(
                                             IFFT_t( pulse.AW *
                                                 np.exp(k*gain_spec*self.length/2.0)
-- 
2.43.0


From d95e18bf1468036d6ef407388ef3432940bed7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:11 +0000
Subject: [PATCH 23/49] fix: process_stepper_output changed the solver's output
 in place, so a second call gave a different answer

---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index f1bcdaa..fc2d9b5 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -466,9 +466,10 @@ class dfg_problem:
         """
         npoints = self.veclength
         
-        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints]
-        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints]
-        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints]
+        # Copies, so that the solver's output is not altered
+        pump_out = np.copy(solver_out.ysave[0:solver_out.count, 0        :   npoints])
+        sgnl_out = np.copy(solver_out.ysave[0:solver_out.count, npoints  : 2*npoints])
+        idlr_out = np.copy(solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints])
         zs       = solver_out.xsave[0:solver_out.count]
         print ('Pulse velocity is ~ '+str(self.approx_pulse_speed*1e-12)+'mm/fs' )
         print('ks: '+str(self.k_p_0)+' '+str(self.k_s_0)+' '+str(self.k_i_0))
-- 
2.43.0


From 384f12c09c5fd3e52a1f3e5aab7d91c058252816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 24/49] fix: the three-time Raman model overwrote the solver's
 Raman fraction, changing later propagations

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index beb180f..c677b58 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -57,9 +57,10 @@ class SSFM:
         self.disable_self_steepening = disable_self_steepening
         self.USE_SIMPLE_RAMAN = USE_SIMPLE_RAMAN
 
-        # Raman fraction; may change depending upon which calculation method 
-        # is used 
+        # Raman fraction
         self.f_R = f_R
+        # Raman fraction in use; depends upon which calculation method is used 
+        self.f_R_used = f_R
         # The value for the old-style Raman response
         self.f_R0 = f_R0
         
@@ -201,19 +202,19 @@ class SSFM:
 
         if raman_plots:
             plt.subplot(221)
-            plt.plot(self.omegas/(2*np.pi), np.abs(self.R - (1-self.f_R)),'bo')
+            plt.plot(self.omegas/(2*np.pi), np.abs(self.R - (1-self.f_R_used)),'bo')
             plt.plot(self.omegas/(2*np.pi), np.abs(self.R0 - (1-self.f_R0)),'r')
             #plt.xlim([0,25])
             plt.title('Abs[R(w)]')
             plt.xlabel('THz')
             plt.subplot(222)
-            plt.plot(self.omegas/(2*np.pi), np.unwrap(np.angle(self.R-(1-self.f_R))),'bo')
+            plt.plot(self.omegas/(2*np.pi), np.unwrap(np.angle(self.R-(1-self.f_R_used))),'bo')
             plt.plot(self.omegas/(2*np.pi), np.unwrap(np.angle(self.R0-(1-self.f_R0))),'r')
             plt.title('Angle[R(w)]')
             plt.xlabel('THz')
             plt.subplot(223)
             plt.plot(pulse_in.T*1000, ifftshift(np.real(self.IFFT_t(\
-                    self.R - (1-self.f_R)))), 'bo')
+                    self.R - (1-self.f_R_used)))), 'bo')
             plt.plot(pulse_in.T*1000, ifftshift(np.real(self.IFFT_t(\
                     self.R0 - (1-self.f_R0)))), 'r')
             plt.title('Abs[R[t]]')
@@ -257,6 +258,7 @@ class SSFM:
         TAU1 = self.tau_1
         TAU2 = self.tau_2
         F_R = self.f_R
+        self.f_R_used = F_R
         C = (TAU1**2+TAU2**2)/(TAU1*TAU2**2)        
         for i in range(pulse.NPTS):
             omega = self.omegas[i]
@@ -284,7 +286,7 @@ class SSFM:
             fb = 0.21
             fc = 0.04
             F_R = 0.245
-            self.f_R = np.copy(F_R)
+            self.f_R_used = F_R
             ha = tau1 / (tau1**2 + tau2**2) * np.exp(-T / tau2) * np.sin(T / tau1)
             hb = (2*taub - T) / taub**2 * np.exp(-T / taub)
             RT = (fa + fc)*ha + fb*hb
-- 
2.43.0


From 100edec388865b5b7ea3b572092dab7de372c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 25/49] fix: the SSFM integrator took an extra full step when
 rounding left a residue of the distance

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index c677b58..b3989ab 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -368,7 +368,8 @@ class SSFM:
             dist -= 2.0*old_dz
             self.iter += 1
 #            printf("-> [%d] dz = %g dist = %g (old_dz = %g) (z = %g)\n",n,dz,dist,old_dz,self.z)
-            if (2.0*dz > dist) and (dist>2.0*self.dz_min):
+            # Never step past the end, even if only a rounding residue remains
+            if (2.0*dz > dist) and (dist>0.0):
                 force_last_dz = True
                 return_dz = dz
                 dz = dist/2.0
-- 
2.43.0


From 0c1b0807ded5df09ac9347fca0abb48b1cdae6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:04 +0000
Subject: [PATCH 26/49] fix: calculate_coherence ignored output_power and
 reload_fiber_each_step

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index b3989ab..27f7d37 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -589,7 +589,9 @@ class SSFM:
             pulse = pulse_in.create_cloned_pulse()
             pulse.add_noise(noise_type=noise_type)
 
-            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps)
+            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps,
+                                                  output_power=output_power,
+                                                  reload_fiber_each_step=reload_fiber_each_step)
 
             results.append((y, AW, AT, pulse_in, pulse_out))
 
-- 
2.43.0


From 731246e199276e734331e74081a4970caea8770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:04 +0000
Subject: [PATCH 27/49] fix: calculate_coherence ignored random_seed, so
 results were not repeatable

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py |  6 +++++-
 src/pynlo/light/PulseBase.py                  | 10 +++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 27f7d37..0df14d6 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -583,11 +583,15 @@ class SSFM:
             obtained from :func:`pynlo.interactions.FourWaveMixing.SSFM.propagate`.
         """
         
+        # A private generator: the result must neither depend on nor disturb other
+        # users of numpy's global one.
+        random_state = None if random_seed is None else np.random.RandomState(random_seed)
+
         results = []
         for num in range(0, num_trials):
 
             pulse = pulse_in.create_cloned_pulse()
-            pulse.add_noise(noise_type=noise_type)
+            pulse.add_noise(noise_type=noise_type, random_state=random_state)
 
             y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps,
                                                   output_power=output_power,
diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index e5a8211..cd20b5b 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -632,7 +632,7 @@ class Pulse:
         self.set_AT(self.AT * np.sqrt( desired_epp_J / self.calc_epp() ) )
         
     
-    def add_noise(self, noise_type='sqrt_N_freq'):
+    def add_noise(self, noise_type='sqrt_N_freq', random_state=None):
         r""" 
          Adds random intensity and phase noise to a pulse. 
         
@@ -647,6 +647,8 @@ class Pulse:
     
              ``one_photon_freq``` : which adds one photon of noise to each frequency bin, regardless of
              the previous value of the electric field in that bin. 
+        random_state : numpy.random.RandomState, optional
+             Source of the random numbers, defaults to numpy's global generator.
              
         Returns
         -------
@@ -666,8 +668,10 @@ class Pulse:
         
         # now generate some random intensity and phase arrays:
         size = np.shape(self.AW)[0]
-        random_intensity = np.random.normal( size=size)
-        random_phase     = np.random.uniform(size=size) * 2 * np.pi
+        if random_state is None:
+            random_state = np.random
+        random_intensity = random_state.normal( size=size)
+        random_phase     = random_state.uniform(size=size) * 2 * np.pi
         
         if noise_type == 'sqrt_N_freq': # this adds Gausian noise with a sigma=sqrt(photons_per_bin)
                                                                       # [J]         # [Hz]
-- 
2.43.0


From 4e92d3c96160575d18dc1618df1ad482c3166d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 28/49] fix: DFGWriter used names that PyTables and Pulse do
 not have and a fractional index, so no run could be saved

---
 .../ThreeWaveMixing/multi_run_rw.py           | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 98fa86f..c8a5f1e 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -107,47 +107,47 @@ class DFGWriter:
             
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
-        npts           = odesolver.nvar / 3
+        npts           = odesolver.nvar // 3
         count          = odesolver.out.nsave
         
         # Store pump, signal, idler fields        
         atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
         data_shape = odesolver.out.ysave[0:count, 0 : npts].T.shape
-        pump_data = self.tables_file.createCArray(grp, 'pump', atom, data_shape)
+        pump_data = self.tables_file.create_carray(grp, 'pump', atom, data_shape)
         pump_data[:] = odesolver.out.ysave[0:count, 0 : npts].T
-        sgnl_data = self.tables_file.createCArray(grp, 'sgnl', atom, data_shape)      
+        sgnl_data = self.tables_file.create_carray(grp, 'sgnl', atom, data_shape)      
         sgnl_data[:] = odesolver.out.ysave[0:count, npts : 2 * npts].T
-        idlr_data = self.tables_file.createCArray(grp, 'idlr', atom, data_shape)
+        idlr_data = self.tables_file.create_carray(grp, 'idlr', atom, data_shape)
         idlr_data[:] = odesolver.out.ysave[0:count, 2*npts : 3 * npts].T
         
         # By the design of the pulse class, the three things we need are center
         # wavelength, time window, and rep rate (N points is set by the array sizes)
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_twind = self.tables_file.createCArray(grp, 'pump_Twind', atom, data_shape)
+        pump_twind = self.tables_file.create_carray(grp, 'pump_Twind', atom, data_shape)
         pump_twind[:] = integrand.pump.time_window_ps
-        sgnl_twind = self.tables_file.createCArray(grp, 'sgnl_Twind', atom, data_shape)
+        sgnl_twind = self.tables_file.create_carray(grp, 'sgnl_Twind', atom, data_shape)
         sgnl_twind[:] = integrand.sgnl.time_window_ps
-        idlr_twind = self.tables_file.createCArray(grp, 'idlr_Twind', atom, data_shape)
+        idlr_twind = self.tables_file.create_carray(grp, 'idlr_Twind', atom, data_shape)
         idlr_twind[:] = integrand.idlr.time_window_ps
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_wlc = self.tables_file.createCArray(grp, 'pump_center_nm', atom, data_shape)
+        pump_wlc = self.tables_file.create_carray(grp, 'pump_center_nm', atom, data_shape)
         pump_wlc[:] = integrand.pump.center_wavelength_nm
-        sgnl_wlc = self.tables_file.createCArray(grp, 'sgnl_center_nm', atom, data_shape)
+        sgnl_wlc = self.tables_file.create_carray(grp, 'sgnl_center_nm', atom, data_shape)
         sgnl_wlc[:] = integrand.sgnl.center_wavelength_nm
-        idlr_wlc = self.tables_file.createCArray(grp, 'idlr_center_nm', atom, data_shape)
+        idlr_wlc = self.tables_file.create_carray(grp, 'idlr_center_nm', atom, data_shape)
         idlr_wlc[:] = integrand.idlr.center_wavelength_nm
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        fr = self.tables_file.createCArray(grp, 'frep_Hz', atom, data_shape)
-        fr[:] = integrand.pump.frep_Hz
+        fr = self.tables_file.create_carray(grp, 'frep_Hz', atom, data_shape)
+        fr[:] = integrand.pump.frep_mks
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        para = self.tables_file.createCArray(grp, 'param', atom, data_shape)
+        para = self.tables_file.create_carray(grp, 'param', atom, data_shape)
         para[:] = param
         
         self.tables_file.flush()
-- 
2.43.0


From afba60971631fe98f5e5837dc083d3e0111ac181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 29/49] fix: DFGWriter dropped the last saved planes of a run

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index c8a5f1e..a37fe03 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -108,7 +108,7 @@ class DFGWriter:
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
         npts           = odesolver.nvar // 3
-        count          = odesolver.out.nsave
+        count          = odesolver.out.count
         
         # Store pump, signal, idler fields        
         atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
-- 
2.43.0


From a678fffe820760dcc14ec108cd2ee0d97d23cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 30/49] fix: DFGWriter could not replace existing data

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index a37fe03..09a3eda 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -102,7 +102,7 @@ class DFGWriter:
             self.root = self.tables_file.create_group('/', param_name)
         except tables.NodeError:
             print ('Parameter "'+param_name+'" already in table; deleting existing data.')
-            self.tables_file.remove_node('/', param_name)
+            self.tables_file.remove_node('/', param_name, recursive = True)
             self.root = self.tables_file.create_group('/', param_name)
             
     def add_run(self,integrand, odesolver, param):
-- 
2.43.0


From 664ae23a2c59c403e1d4fad6ed030a060498c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 31/49] fix: a failed DFGWriter.add_run left part of a run
 behind, which blocked every later one

---
 .../interactions/ThreeWaveMixing/multi_run_rw.py    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 09a3eda..949a5fa 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -107,6 +107,16 @@ class DFGWriter:
             
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
+        try:
+            self._write_run(grp, integrand, odesolver, param)
+            self.tables_file.flush()
+        except:
+            # Don't leave part of a run behind: it would be in the way of the
+            # next one, and readers would take it for a whole one
+            self.tables_file.remove_node(grp, recursive = True)
+            raise
+        self.run_ctr += 1
+    def _write_run(self, grp, integrand, odesolver, param):
         npts           = odesolver.nvar // 3
         count          = odesolver.out.count
         
@@ -149,6 +159,3 @@ class DFGWriter:
         data_shape = (1,)
         para = self.tables_file.create_carray(grp, 'param', atom, data_shape)
         para[:] = param
-        
-        self.tables_file.flush()
-        self.run_ctr += 1
-- 
2.43.0


From e7263ea6b858f008dbe58c172a4fc6c59944a531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:08 +0000
Subject: [PATCH 32/49] fix: setting up a poled DFG problem drew debugging
 curves into the user's current figure

---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index fc2d9b5..049b7a0 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -277,8 +277,6 @@ class dfg_problem:
                 print("Error: poling period",self.crystal.pp(z_current)," at z=",z_current,"is too small")
         self.domain_lb = np.array(domain_lb)
         self.domain_ub = np.array(domain_ub)
-        plt.plot(self.domain_lb)
-        plt.plot(self.domain_ub)
         
     
     
-- 
2.43.0


From 6273684da13d57772f8eb40ff7e72a9092633014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:56 +0000
Subject: [PATCH 33/49] fix: dispersion from an effective index was placed at
 frequencies 0.07% too high

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 3ffbbf2..cb901fa 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -289,7 +289,7 @@ class FiberInstance:
             # x is the wavelength in nm
             # y is the refractive index (unitless)
             
-            supplied_W_THz = 2 * np.pi * 1e-12 * 3e8 / (x*1e-9)
+            supplied_W_THz = 2 * np.pi * 1e-12 * self.c_mks / (x*1e-9)
             supplied_betas = y * 2 * np.pi / (x * 1e-9)
             
             # InterpolatedUnivariateSpline wants increasing x, so flip arrays
-- 
2.43.0


From 1a492dcdc225f07d8eae80a0282dc1b2ffb3ab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 34/49] fix: the search of propagate_to_gain_goal used a pulse
 repetition rate attribute that does not exist

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 0df14d6..af744f9 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -645,7 +645,7 @@ class SSFM:
                                                      1, output_power = 
                                                      power_goal * scalefactor_revised)
             modeled_avg_power_prev = modeled_avg_power
-            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep
+            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep_mks
             slope = (modeled_avg_power - modeled_avg_power_prev) /\
                             (scalefactor_revised - scalefactor)                            
             yint = modeled_avg_power_prev - slope*scalefactor    
-- 
2.43.0


From ed3c365945f2d6b4110f08e22a63f3d723c65369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:38 +0000
Subject: [PATCH 35/49] fix: propagate_to_gain_goal searched forever when the
 goal could not be reached

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index af744f9..65ee2e9 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -640,7 +640,15 @@ class SSFM:
         scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep_mks))
         modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep_mks                                                                 
         output_scale = scalefactor
-        while abs(modeled_avg_power - power_goal) / power_goal > powertol:
+        trials = 0
+        # Written so that a power that is not a number also counts as missed
+        while not abs(modeled_avg_power - power_goal) / power_goal <= powertol:
+            # A goal out of reach (or a fiber whose gain does not depend on the
+            # output power) must not search forever
+            trials += 1
+            if trials > 50 or not np.isfinite(scalefactor_revised):
+                raise RuntimeError('propagate_to_gain_goal did not reach %s W; '
+                                   'the last trial gave %s W'%(power_goal, modeled_avg_power))
             y, AW, AT, pulse_out = self.propagate(pulse_in, fiber,
                                                      1, output_power = 
                                                      power_goal * scalefactor_revised)
-- 
2.43.0


From 93ffacb49262a52155b43a9c3e98afb446da58e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:38 +0000
Subject: [PATCH 36/49] fix: a fiber was left half-configured by an incomplete
 database entry or malformed coefficients

---
 src/pynlo/media/fibers/fiber.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index cb901fa..51fbd16 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -71,13 +71,20 @@ class FiberInstance:
         
     def load_from_db(self, length, fibertype, poly_order = 2):
         """This loads a fiber from the database. """
-        self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
-        self.fibertype = fibertype
-        self.length = length
-        self.betas = np.array([0])
-        self.gamma = self.fiberspecs["gamma"]
-        self.poly_order = poly_order
-        self.load_dispersion()
+        before = dict(self.__dict__)
+        try:
+            self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
+            self.fibertype = fibertype
+            self.length = length
+            self.betas = np.array([0])
+            self.gamma = self.fiberspecs["gamma"]
+            self.poly_order = poly_order
+            self.load_dispersion()
+        except:
+            # The entry is incomplete: leave the fiber as it was
+            self.__dict__.clear()
+            self.__dict__.update(before)
+            raise
     
     def load_from_file(self, filename, length=0.1, fiberName=None, gamma_W_m=0, gain=0,
                        alpha=0, delimiter=',', skiprows=0, poly_order=3):
@@ -372,6 +379,12 @@ class FiberInstance:
                        gvd_units = 'ps^n/m', label = 'Simple Fiber'):
         """ This generates a fiber instance using the beta-coefficients."""
         
+        # Raises if the coefficients are not numbers; do so before changing anything
+        betas = np.copy(np.array(betas, dtype = float))
+        # If in km^-1 units, scale to m^-1
+        if gvd_units == 'ps^n/km':
+            betas = betas * 1.0e-3
+
         self.length = length
         self.fiberspecs= {}
         self.fiberspecs['dispersion_format'] = 'GVD'
@@ -385,8 +398,5 @@ class FiberInstance:
         self.fiberspecs['gain_x_data' ] = None
 
         self.center_wavelength = center_wl_nm
-        self.betas = np.copy(np.array(betas))
+        self.betas = betas
         self.gamma = gamma_W_m
-        # If in km^-1 units, scale to m^-1
-        if gvd_units == 'ps^n/km':
-            self.betas = self.betas * 1.0e-3
-- 
2.43.0


From 61845f506317e18f3119c173c08a626cbfccb840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:38 +0000
Subject: [PATCH 37/49] fix: a reconfigured fiber kept using the dispersion and
 gamma functions set for the previous one

---
 src/pynlo/media/fibers/fiber.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 51fbd16..6cb4f52 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -80,12 +80,19 @@ class FiberInstance:
             self.gamma = self.fiberspecs["gamma"]
             self.poly_order = poly_order
             self.load_dispersion()
+            self._forget_functions()
         except:
             # The entry is incomplete: leave the fiber as it was
             self.__dict__.clear()
             self.__dict__.update(before)
             raise
     
+    def _forget_functions(self):
+        """ A newly loaded fiber is described by what was loaded, not by functions of z
+        which were set for an earlier one. """
+        self.dispersion_changes_with_z = False
+        self.gamma_changes_with_z = False
+
     def load_from_file(self, filename, length=0.1, fiberName=None, gamma_W_m=0, gain=0,
                        alpha=0, delimiter=',', skiprows=0, poly_order=3):
         """
@@ -117,6 +124,7 @@ class FiberInstance:
         self.fiberspecs['gain_x_data' ] = None
         
         self.x, self.y = x, y
+        self._forget_functions()
             
     def load_dispersion(self):
         """This is typically called by the "load_from_db" function. 
@@ -400,3 +408,4 @@ class FiberInstance:
         self.center_wavelength = center_wl_nm
         self.betas = betas
         self.gamma = gamma_W_m
+        self._forget_functions()
-- 
2.43.0


From 3214d9b9c0201dfb3a8db6af5c80f5cf202b01c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 38/49] fix: running out of memory in a transform left a pulse
 with the new grid and the old field

---
 src/pynlo/light/PulseBase.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index cd20b5b..fd24d30 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -777,10 +777,11 @@ class Pulse:
         else:
             raise ValueError("new_pts_loc must be one of 'before', 'after', 'even'")
 
+        AW_new = FFT_t(AT_new) # May run out of memory; do so before changing anything
         self.set_NPTS(self.NPTS * 2**factor_log2)        
         self.set_time_window_ps(self.time_window_ps * 2**factor_log2)
         self._AW = None # Force generation of new array
-        self.set_AT(AT_new)
+        self.set_AW(AW_new)
     def rotate_spectrum_to_new_center_wl(self, new_center_wl_nm):
         """Change center wavelength of pulse by rotating the electric field in
             the frequency domain. Designed for creating multiple pulses with same
@@ -818,12 +819,12 @@ class Pulse:
         self.set_AW(AW_new)        
     def clone_pulse(self, p):
         '''Copy all parameters of pulse_instance into this one'''
-        AT = p.AT # Raises if p has no field; do so before changing anything
+        AW = FFT_t(p.AT) # Raises if p has no field; do so before changing anything
         self.set_NPTS(p.NPTS)
         self.set_time_window_ps(p.time_window_ps)
         self.set_center_wavelength_nm(p.center_wavelength_nm)
         self._frep_MHz = p.frep_MHz
-        self.set_AT(AT)
+        self.set_AW(AW)
     def get_pulse_dict(self):
         d = {"NPTS" : self.NPTS,
              "time_window_ps" : self.time_window_ps,
@@ -840,11 +841,12 @@ class Pulse:
         center_wavelength_nm, frep_MHz = d["center_wavelength_nm"], d["frep_MHz"]
         if AT.shape != (NPTS,):
             raise ValueError("Field in pulse dictionary does not have NPTS points.")
+        AW = FFT_t(AT)
         self.set_NPTS(NPTS)
         self.set_time_window_ps(time_window_ps)
         self.set_center_wavelength_nm(center_wavelength_nm)
         self._frep_MHz = frep_MHz
-        self.set_AT(AT)
+        self.set_AW(AW)
     def create_cloned_pulse(self):
         '''Create and return new pulse instance identical to this instance.'''
         p = Pulse()
-- 
2.43.0


From 35c19de8a9e1fb14f3bd4fdd567e30f68691ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:41 +0000
Subject: [PATCH 39/49] fix: METHOD_SSFM applied only half of the dispersion
 and gain

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 65ee2e9..39ed1d4 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -381,12 +381,13 @@ class SSFM:
  
     def Advance(self,A,dz,direction):
         if self.method == SSFM.METHOD_SSFM:
+            # LinearStep advances by half of the step it is given
             if direction==1:
-                A[:] = self.LinearStep(A,dz,direction)
+                A[:] = self.LinearStep(A,2.0*dz,direction)
                 return np.exp(dz*direction*self.NonlinearOperator(A))*A
             else:
                 A[:] = np.exp(dz*direction*self.NonlinearOperator(A))*A
-                return self.LinearStep(A,dz,direction)
+                return self.LinearStep(A,2.0*dz,direction)
         elif self.method == SSFM.METHOD_RK4IP:
             return self.RK4IP(A,dz,direction)
 
-- 
2.43.0


From abf7fcdc42d5314bfbafbfce2e28715469a1e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:56 +0000
Subject: [PATCH 40/49] fix: a step that overflowed was accepted as exact

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 39ed1d4..aefc4ba 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -332,13 +332,16 @@ class SSFM:
                 print ("iteration:",self.iter,"dz:",dz,"distance:", dist,\
                       "local error", delta )
 
-            if delta > 2.0*self.local_error:
+            # A step so long that it overflowed has an error that is not a number
+            if delta > 2.0*self.local_error or np.isnan(delta):
                 # Discard the solution, decrease step
                 new_dz = dz/2.0
                 if new_dz >= self.dz_min:
                     dz = new_dz
                     # discard current step
                     continue
+                elif np.isnan(delta):
+                    raise FloatingPointError('field is not a number')
                 else:
                     # accept step after all
                     pass
-- 
2.43.0


From d485fa2733e5673bddfbe5eddedd0330168e81a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:27 +0000
Subject: [PATCH 41/49] fix: DFGReader gave every run the repetition rate of
 the first one

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 949a5fa..40ef5f1 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -54,6 +54,8 @@ class DFGReader:
             
         run = self.root_name+'/run'+str(run_num)
         
+        frep_Hz = self.tables_file.get_node(run+'/frep_Hz')[0]
+
         # Read in and generate pump pulse
         pump_field  = self.tables_file.get_node(run+'/pump')[:,z_num]
         pump_Twind  = self.tables_file.get_node(run+'/pump_Twind')[0]
@@ -63,7 +65,7 @@ class DFGReader:
         p.set_center_wavelength_nm(pump_center)
         p.set_time_window_ps(pump_Twind)
         p.set_AW(pump_field)
-        p.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        p.set_frep_MHz(frep_Hz * 1.0e-6)
         
         # Read in and generate signal pulse
         sgnl_field  = self.tables_file.get_node(run+'/sgnl')[:,z_num]
@@ -74,7 +76,7 @@ class DFGReader:
         s.set_center_wavelength_nm(sgnl_center)
         s.set_time_window_ps(sgnl_Twind)
         s.set_AW(sgnl_field)
-        s.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        s.set_frep_MHz(frep_Hz * 1.0e-6)
 
         # Read in and generate idler pulse
         idlr_field  = self.tables_file.get_node(run+'/idlr')[:,z_num]
@@ -85,7 +87,7 @@ class DFGReader:
         i.set_center_wavelength_nm(idlr_center)
         i.set_time_window_ps(idlr_Twind)
         i.set_AW(idlr_field)
-        i.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        i.set_frep_MHz(frep_Hz * 1.0e-6)
         
         return (p, s, i)
         
-- 
2.43.0


From a862ef1efbe63a96e36890e6f6308790056778b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:27 +0000
Subject: [PATCH 42/49] fix: DFGReader could not open a file without runs, and
 kept the file open after a failure

---
 .../ThreeWaveMixing/multi_run_rw.py            | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 40ef5f1..baea3f2 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -23,12 +23,18 @@ class DFGReader:
     def __init__(self, file_name, param_name):
         """ Initialize by opening HDF5 file with results for reading. """
         self.tables_file = tables.open_file(file_name, mode = 'r')
-        self.root = self.tables_file.get_node('/' + param_name)
-        self.root_name = '/' + param_name        
-        self.run_ctr = 0
-        for n in self.tables_file.list_nodes(self.root_name):
-            self.run_ctr += 1
-        self.frep_Hz    = self.tables_file.get_node(self.root_name+'/run0/frep_Hz')[0]        
+        try:
+            self.root = self.tables_file.get_node('/' + param_name)
+            self.root_name = '/' + param_name        
+            self.run_ctr = 0
+            for n in self.tables_file.list_nodes(self.root_name):
+                self.run_ctr += 1
+            if self.run_ctr > 0:
+                self.frep_Hz    = self.tables_file.get_node(self.root_name+'/run0/frep_Hz')[0]
+        except:
+            # An open file could not be written to any more
+            self.tables_file.close()
+            raise
 
 
     def get_run_param(self, run_num = None):
-- 
2.43.0


From 9ab8548a34d189e997fa76474b09b9815e7bf004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:52 +0000
Subject: [PATCH 43/49] fix: a DFGWriter that could not be set up kept its file
 open, so it could not be opened again

---
 .../interactions/ThreeWaveMixing/multi_run_rw.py  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index baea3f2..109906b 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -107,11 +107,16 @@ class DFGWriter:
     def __init__(self, file_name, param_name):
         self.tables_file = tables.open_file(file_name, mode = 'a')
         try:
-            self.root = self.tables_file.create_group('/', param_name)
-        except tables.NodeError:
-            print ('Parameter "'+param_name+'" already in table; deleting existing data.')
-            self.tables_file.remove_node('/', param_name, recursive = True)
-            self.root = self.tables_file.create_group('/', param_name)
+            try:
+                self.root = self.tables_file.create_group('/', param_name)
+            except tables.NodeError:
+                print ('Parameter "'+param_name+'" already in table; deleting existing data.')
+                self.tables_file.remove_node('/', param_name, recursive = True)
+                self.root = self.tables_file.create_group('/', param_name)
+        except:
+            # Nobody else can close the file, or open it again
+            self.tables_file.close()
+            raise
             
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
-- 
2.43.0


From 6659b703492bda040244be8a3c8796b0eacbc7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:52 +0000
Subject: [PATCH 44/49] fix: add_run interrupted before or after writing left a
 run that was not counted

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 109906b..4fb1c6f 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -119,16 +119,20 @@ class DFGWriter:
             raise
             
     def add_run(self,integrand, odesolver, param):
-        grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
+        run_num  = self.run_ctr
+        name     = 'run'+str(run_num)
         try:
+            grp = self.tables_file.create_group(self.root, name, title=str(param))
             self._write_run(grp, integrand, odesolver, param)
             self.tables_file.flush()
+            self.run_ctr = run_num + 1
         except:
             # Don't leave part of a run behind: it would be in the way of the
             # next one, and readers would take it for a whole one
-            self.tables_file.remove_node(grp, recursive = True)
+            self.run_ctr = run_num
+            if name in self.root:
+                self.tables_file.remove_node(self.root, name, recursive = True)
             raise
-        self.run_ctr += 1
     def _write_run(self, grp, integrand, odesolver, param):
         npts           = odesolver.nvar // 3
         count          = odesolver.out.count
-- 
2.43.0


From 5b774c31e2ce1cef5b1ba858ed292d2d17edeb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:47 +0000
Subject: [PATCH 45/49] fix: propagate_to_gain_goal reported success for a
 negative goal

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index aefc4ba..6ca2ca8 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -646,7 +646,7 @@ class SSFM:
         output_scale = scalefactor
         trials = 0
         # Written so that a power that is not a number also counts as missed
-        while not abs(modeled_avg_power - power_goal) / power_goal <= powertol:
+        while not abs((modeled_avg_power - power_goal) / power_goal) <= powertol:
             # A goal out of reach (or a fiber whose gain does not depend on the
             # output power) must not search forever
             trials += 1
-- 
2.43.0


From 0dab14e2d37993a46495dbe865734757995c65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 46/49] fix: FROGPulse accepted files with values that are not
 numbers

---
 src/pynlo/light/DerivedPulses.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 222ed6d..de62558 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -150,6 +150,9 @@ class FROGPulse(Pulse):
             
             # Read in retrieved FROG trace
             frog_data = np.genfromtxt(self.fileloc)
+            # genfromtxt reads what is not a number as NaN
+            if not np.all(np.isfinite(frog_data)):
+                raise ValueError('%s contains values which are not numbers'%self.fileloc)
             wavelengths = frog_data[:,0]# (nm)
             intensity   = frog_data[:,1]# (arb. units)
             phase       = frog_data[:,2]# (radians)
-- 
2.43.0


From 4c718e1f1779ae6d154a1ac584b4b3e8ef4422ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 47/49] fix: DTabulationToBetas accepted files with values that
 are not numbers

---
 src/pynlo/media/fibers/calculators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 122c635..818dce2 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -37,6 +37,9 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     makePlots = 0
     if DDataIsFile:
         DTab = np.genfromtxt(DData,delimiter=',',skip_header=1)
+        # genfromtxt reads what is not a number as NaN
+        if not np.all(np.isfinite(DTab)):
+            raise ValueError('%s contains values which are not numbers'%DData)
     else:
         DTab = np.array(DData, dtype = float) # A copy; it is scaled below
             
-- 
2.43.0


From 922a2dcb19c585b52e337f3f7bb797078e8f2f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:22 +0000
Subject: [PATCH 48/49] fix: write_frog saves to the file it was asked for when
 two threads save one pulse

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index fd24d30..128a64c 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -919,7 +919,7 @@ class Pulse:
             phase_data = -1 * phase_data
         
         # Write pulse data file
-        np.savetxt(self.fileloc, np.vstack((wavel_data, inten_data, phase_data)).T) 
+        np.savetxt(fileloc, np.vstack((wavel_data, inten_data, phase_data)).T) 
     
     def spectrogram(self, gate_type='xfrog', gate_function_width_ps=0.020, time_steps=500):
         """This calculates a spectrogram, essentially the spectrally-resolved cross-correlation of the pulse.
-- 
2.43.0


From 4ff63cc439ad155ceade15c02e7b6d7d50c9c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:17 +0000
Subject: [PATCH 49/49] fix: an integration output used again kept the number
 of points saved before

---
 src/pynlo/util/ode_solve/steppers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index cb01c39..3ce546c 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -63,6 +63,8 @@ class Output:
             """
         self.nvar = neqn
         self.dtype = dtype
+        # Nothing has been saved yet, even if this instance was used before
+        self.count = 0
         if self.kmax == -1:
             return
         self.ysave = np.zeros((self.kmax, self.nvar), dtype = dtype)
-- 
2.43.0

