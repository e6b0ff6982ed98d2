From f19073dfcbc90970d1f3dbe746a79b0f89450352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 01/20] fix: dipole_k uses the calculated ab for angle factor
 and J2 split (magnetic receivers)

---
 empymod/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 81c0b17..09cd5dd 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1439,7 +1439,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
 
     # Get angle-dependent factor
     off, angle = get_off_ang(src, rec, nsrc, nrec, verb)
-    ang_fact = kernel.angle_factor(angle, ab, msrc, mrec)
+    ang_fact = kernel.angle_factor(angle, ab_calc, msrc, mrec)
 
     # Get layer number in which src and rec reside (lsrc/lrec)
     lsrc, zsrc = get_layer_nr(src, depth)
@@ -1473,7 +1473,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
         # Collect output
         if J1 is not None:
             PJ1 += ang_fact[:, np.newaxis]*J1
-            if ab in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
+            if ab_calc in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
                 # J2(kr) = 2/(kr)*J1(kr) - J0(kr)
                 PJ1 /= off[:, None]
         if J0 is not None:
-- 
2.43.0


From 15696a0e633b15867bf176724640de545caf62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 02/20] fix: sign and NaN of the analytical MM full-space for
 epermH=0 and in the Laplace domain

---
 empymod/kernel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index df13c48..53c7189 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -831,11 +831,13 @@ def fullspace(off, angle, zsrc, zrec, etaH, etaV, zetaH, zetaV, ab, msrc,
 
         term3 = -zetaH[:, None]*coo1*coo2/(off*off)*(uGamTM - uGamTE)
 
-        term4 = -np.sqrt(zetaH)[:, None]*(2*coo1*coo2/(off*off) - delta)
-        if np.any(zetaH.imag < 0):  # We need the sqrt where Im > 0.
-            term4 *= -1     # This if-statement corrects for it.
+        # sqrt(zetaH)/sqrt(etaH) is -sqrt(zetaH/etaH) for the switched and
+        # negated eta, zeta of the magnetic-magnetic case.
+        term4 = -np.sqrt(zetaH/etaH)[:, None]*(2*coo1*coo2/(off*off) - delta)
+        if mrec:
+            term4 *= -1
         term4 *= np.exp(-lGamTM[:, None]*RTM) - np.exp(-lGamTE[:, None]*RTE)
-        term4 /= 4*np.pi*np.sqrt(etaH)[:, None]*off*off
+        term4 /= 4*np.pi*off*off
 
         gin = term1 + term2 + term3 + term4
 
-- 
2.43.0


From 8bc2a7bb33e4513a503a2cb82f61c8bb08399616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 03/20] fix: analytical accepts lists of frequencies for the
 diffusive solutions

---
 empymod/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 09cd5dd..868b370 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1157,7 +1157,7 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
     if solution[0] == 'd':
         # To make it work with Laplace domain calculations.
         if signal is None:
-            if np.any(freqtime > 0):
+            if np.any(np.asarray(freqtime) > 0):
                 freqtime = 2j*np.pi*freq
             else:
                 freqtime = freq
-- 
2.43.0


From dd7d091f1c128c1479af90b20fec3bf39c5bbf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 04/20] fix: gpr applies no gain for the default gain=None

---
 empymod/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 868b370..5321abd 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1281,7 +1281,8 @@ def gpr(src, rec, depth, res, freqtime, cf, gain=None, ab=11, aniso=None,
     conv_warning(conv, ftarg, 'Fourier', verb)
 
     # Apply gain; make pure real
-    EM *= (1 + np.abs((time*10**9)**gain))[:, None]
+    if gain is not None:
+        EM *= (1 + np.abs((time*10**9)**gain))[:, None]
     EM = EM.real
 
     # Reshape for number of sources
-- 
2.43.0


From 868865e24e2e3f7be3cb1ecc19ca98d78d815f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 05/20] fix: negative strength is a source strength too
 (documented: strength != 0)

---
 empymod/model.py | 2 +-
 empymod/utils.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 5321abd..677abdb 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -606,7 +606,7 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
 
             # Scale signal for src-strength and src/rec-lengths
             src_rec_w = 1
-            if strength > 0:
+            if strength != 0:
                 src_rec_w *= np.repeat(src_w, irec)
                 src_rec_w *= np.tile(rec_w, isrc)
             sEM *= src_rec_w
diff --git a/empymod/utils.py b/empymod/utils.py
index 74cc87e..81326f5 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1859,9 +1859,9 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
         # If dipole, g_w are ones
         g_w = np.ones(tinp[0].size)
 
-        # If dipole, inp_w are ones, unless strength > 0
+        # If dipole, inp_w are ones, unless strength != 0
         inp_w = np.ones(tinp[0].size)
-        if name == 'src' and strength > 0:
+        if name == 'src' and strength != 0:
             inp_w *= strength
 
         # Collect output
@@ -1918,7 +1918,7 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
 
         # Scaling
         inp_w = np.ones(dl.size)
-        if strength > 0:  # If strength > 0, we scale it by dipole-length
+        if strength != 0:  # If strength != 0, we scale it by dipole-length
             inp_w *= dl
             if name == 'src':  # If source, additionally by source strength
                 inp_w *= strength
-- 
2.43.0


From 136305aae2d97a30fc3001d21ec7145a48bc2b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 06/20] fix: reject ht which is merely a substring of 'quad'

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 81326f5..84678e7 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -657,7 +657,7 @@ def check_hankel(ht, htarg, verb):
             if targ['limit']:
                 print(f"     > limit (quad):  {targ['limit']}")
 
-    elif ht in 'quad':  # QUAD
+    elif ht == 'quad':  # QUAD
 
         # rtol : 1e-12
         targ['rtol'] = _check_var(
-- 
2.43.0


From dc22fea8d809860a37a2e2e44c8305b6f1bf2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 07/20] fix: CLI main(args) considers the provided args, not
 sys.argv

---
 empymod/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/__main__.py b/empymod/__main__.py
index 3a60842..d3d4239 100644
--- a/empymod/__main__.py
+++ b/empymod/__main__.py
@@ -90,7 +90,7 @@ def main(args=None):
         print(utils.Report())
 
     # Info if not at list routine and input provided.
-    elif len(sys.argv) < 3:
+    elif len(args) < 2:
         print(f"{parser.description}\n=> Type `empymod --help` for "
               f"more info (empymod v{utils.__version__}).")
 
-- 
2.43.0


From c29e85109dffccf8c2f94b53483eae8b384c99e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 08/20] fix: FFTLog, factor of the last element in the biased
 case (even n)

---
 empymod/transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4235f51..b158e15 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -776,8 +776,7 @@ def fourier_fftlog(fEM, time, freq, ftarg):
 
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
-            m = int(n/2)-3
-            ar = argcos[m-1]*argamp[m-1]
+            ar = argcos[-1]*argamp[-1]
             a[-1] *= ar
 
     # 4.c normal FFT back
-- 
2.43.0


From b63a95e88d721547723beca9358a576b17ab075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 09/20] fix: FFTLog, last coefficient pair was skipped for odd
 n

---
 empymod/transform.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index b158e15..8b09975 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -750,13 +750,13 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     a = sp.fftpack.rfft(a)
 
     # 4.b
-    m = np.arange(1, n//2, dtype=np.int64)  # index variable
+    m = np.arange(1, (n+1)//2, dtype=np.int64)  # index variable
     if q == 0:  # unbiased (q = 0) transform
         # multiply by (kr)^[- i 2 m pi/(n dlnr)] U_mu[i 2 m pi/(n dlnr)]
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[m-1] - ai*argsin[m-1]
+        a[2*m] = ar*argsin[m-1] + ai*argcos[m-1]
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
             ar = argcos[-1]
@@ -767,12 +767,12 @@ def fourier_fftlog(fEM, time, freq, ftarg):
         # phase
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[m-1] - ai*argsin[m-1]
+        a[2*m] = ar*argsin[m-1] + ai*argcos[m-1]
 
         a[0] *= argcos1
-        a[2*m-1] *= argamp[:-1]
-        a[2*m] *= argamp[:-1]
+        a[2*m-1] *= argamp[m-1]
+        a[2*m] *= argamp[m-1]
 
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
-- 
2.43.0


From 8b761a0ec9a1cf1710d232dc8777b5d04795e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 10/20] fix: FFTLog, do not change the input array in-place
 (cosine)

---
 empymod/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 8b09975..5dcbbe7 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -699,7 +699,7 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     if mu > 0:  # Sine
         a = -fEM.imag
     else:       # Cosine
-        a = fEM.real
+        a = fEM.real.copy()
     n = a.size
 
     # 1. Amplitude and Argument of kr^(-2 i y) U_mu(q + 2 i y)
-- 
2.43.0


From 1e53c16075f93352dd1f8ca38796afae058e5110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 11/20] fix: tmtemod, refer the +- correction to the top of the
 source layer

---
 empymod/scripts/tmtemod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/tmtemod.py b/empymod/scripts/tmtemod.py
index 1c9a3b6..5d8d70b 100644
--- a/empymod/scripts/tmtemod.py
+++ b/empymod/scripts/tmtemod.py
@@ -537,7 +537,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTE[0] += npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTE[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*depth[lsrc]))
     PTE[3] += npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # TM modes TM[uu, ud, du, dd]
@@ -545,7 +545,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTM[0] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTM[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*depth[lsrc]))
     PTM[3] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # 3.5 Reshape for number of sources
-- 
2.43.0


From 6d776f5497e29eda9ea47a72920afa49d85bae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 12/20] fix: load_filter(full=True) for an inversion with a
 single shift value

---
 empymod/scripts/fdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index 8738c5f..ed8bf21 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -557,7 +557,7 @@ def load_filter(name, full=False, path='filters', filter_coeff=None):
                                     '_full.txt' + suffix)
 
             # Read data
-            out = np.loadtxt(fullfile)
+            out = np.loadtxt(fullfile, ndmin=2)
 
         except IOError:
             return filt
-- 
2.43.0


From a9c043bad428362670aa4ebf0f94a8d09f103ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 13/20] fix: load_data restores non-finite complex numbers from
 json

---
 empymod/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/empymod/io.py b/empymod/io.py
index 1a73d2b..500384e 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -244,7 +244,9 @@ def load_data(fname):
         # If complex, re-create complex data.
         data = np.array(inpdat['data'])
         if 'complex' in inpdat['dtype']:
-            data = data[0, ...] + 1j*data[1, ...]
+            real, imag = data
+            data = real.astype(np.complex128)
+            data.imag = imag  # (1j*imag would spoil real if imag is inf/nan.)
 
     # Unknown, throw error
     else:
-- 
2.43.0


From 11d6bafe4a4255fa261056d5dd316b6f9120d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 14/20] fix: analytical ignores the permittivities in the
 diffusive solutions

---
 empymod/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/empymod/model.py b/empymod/model.py
index 677abdb..9106694 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1123,6 +1123,10 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
                         verb)
     depth, res, aniso, epermH, epermV, mpermH, mpermV, _ = model
 
+    # Electric permittivities are ignored in the diffusive solutions
+    if solution in ['dfs', 'dhs', 'dsplit', 'dtetm']:
+        epermH, epermV = 0*epermH, 0*epermV
+
     # Check frequency => get etaH, etaV, zetaH, and zetaV
     frequency = check_frequency(freqtime, res, aniso, epermH, epermV, mpermH,
                                 mpermV, verb)
-- 
2.43.0


From b169143775aebc1360b6cd68cbfe4802604b89b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 15/20] fix: QWE and QUAD work in the Laplace domain
 (real-valued result)

---
 empymod/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index 5dcbbe7..877f4c6 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -416,6 +416,10 @@ def hankel_qwe(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
         fEM, kcount, conv = qwe(rtol, atol, maxint, getkernel, intervals,
                                 lambd, off, ang_fact)
 
+    # The response is real in the Laplace domain.
+    if np.isrealobj(etaH):
+        fEM = fEM.real
+
     return fEM, kcount, conv
 
 
@@ -498,6 +502,10 @@ def hankel_quad(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
                           off[i], ang_fact[i], iinp)
         conv *= tc
 
+    # The response is real in the Laplace domain.
+    if np.isrealobj(etaH):
+        fEM = fEM.real
+
     # Return the electromagnetic field
     # Second argument (1) is the kernel count, last argument is only for QWE.
     return fEM, 1, conv
-- 
2.43.0


From 4d0c5ff87e873f46af16b4740d27e6ac9ee447a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:40 +0000
Subject: [PATCH 16/20] fix: QWE returned zero if it converged at the first
 check

---
 empymod/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 877f4c6..d778c84 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1117,12 +1117,12 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
             relErr[om, i-1] = np.abs(rErr)
             abserr = atol/np.abs(extrap[om, i-1])
 
-            # Update booleans
-            om[om] *= relErr[om, i-1] >= rtol + abserr
-
             # Store in EM
             EM[om] = extrap[om, i-1]
 
+            # Update booleans
+            om[om] *= relErr[om, i-1] >= rtol + abserr
+
         if (~om).all():
             break
 
-- 
2.43.0


From 928fefd3d432ded0c08c8d4f853b435aaf9f9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 17/20] fix: dlf without ang_fact for lagged and splined Hankel
 transforms

---
 empymod/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index d778c84..155ebe3 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -882,6 +882,7 @@ def dlf(signal, points, out_pts, filt, pts_per_dec, kind=None, ang_fact=None,
 
         # Check if all angles are the same
         if ang_fact is None:
+            one_angle = True
             has_angle_factors = False
         else:
             one_angle = ang_fact.min() == ang_fact.max()
-- 
2.43.0


From b8de3e18e3becc9954f1765e1c7aaa0dd800b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 18/20] fix: check_time returns 1D frequencies for the standard
 Fourier DLF and several times

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 84678e7..c2758cb 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1080,7 +1080,7 @@ def check_time(time, signal, ft, ftarg, verb, new=False):
         # Get required frequencies
         omega, _ = transform.get_dlf_points(
                 targ['dlf'], time, targ['pts_per_dec'])
-        freq = np.squeeze(omega/2/np.pi)
+        freq = np.ravel(omega/2/np.pi)
 
     elif ft == 'qwe':     # QWE (using sine and imag-part)
         # If switch-off is required, use cosine, else sine
-- 
2.43.0


From 41340bd71e0ce6ae66320b76317036af1543ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 19/20] fix: report the centre of each finite bipole, not of
 the first only (verb > 2)

---
 empymod/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index c2758cb..a12497b 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1950,9 +1950,7 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
                 prntinp = tout
             else:
                 print(f"     > intpts      :  {intpts}")
-                prntinp = [np.atleast_1d(tinp[0])[0] + dx/2,
-                           np.atleast_1d(tinp[2])[0] + dy/2,
-                           np.atleast_1d(tinp[4])[0] + dz/2]
+                prntinp = [tinp[0] + dx/2, tinp[2] + dy/2, tinp[4] + dz/2]
 
             # Print dipole length and strength
             _prnt_min_max_val(dl, "     > length  [m] : ", verb)
-- 
2.43.0


From cbfe3e7bf337023e44c33c3e19d5d50d98fb48d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 20/20] fix: fdesign.design does not alter the provided fC

---
 empymod/scripts/fdesign.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index ed8bf21..890595e 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -383,13 +383,13 @@ def design(n, spacing, shift, fI, fC=False, r=None, r_def=(1, 1, 2), reim=None,
             f = list(f)
         return f
 
-    if not fC:  # copy fI if fC not provided
-        fC = dc(fI)
+    if not fC:  # use fI if fC not provided
+        fC = fI
     fI = check_f(fI)
     if fI[0].name == 'j2':
         raise ValueError("j2 (jointly j0 and j1) is only implemented for "
                          "fC, not for fI!")
-    fC = check_f(fC)
+    fC = dc(check_f(fC))  # copy, as its rhs is replaced by its values
 
     # Check default input values
     if finish and not callable(finish):
-- 
2.43.0

