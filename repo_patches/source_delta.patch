From c20b5e0a28d5b949c0a1f33e1fd9f891314cf303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 01/39] fix: pack/unpack of arrays for MPI fails with NumPy 2
 (dtype code 'a8' was removed)

---
 vayesta/core/helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/helper.py b/vayesta/core/helper.py
index 9023c8f..8585e53 100644
--- a/vayesta/core/helper.py
+++ b/vayesta/core/helper.py
@@ -19,15 +19,15 @@ def orbital_sign_convention(mo_coeff, inplace=True):
 def get_dtype_int(obj):
     if obj is None:
         return 0
-    dtint = np.asarray(obj.dtype.char, dtype="a8").view(int)[()]
+    dtint = np.asarray(obj.dtype.char, dtype="S8").view(int)[()]
     return dtint
 
 
 def get_dtype(dtint):
     if dtint == 0:
         return None
-    val = np.asarray(dtint).view("a8")[()]
-    dtype = np.dtype(val)
+    val = np.asarray(dtint).view("S8")[()]
+    dtype = np.dtype(val.decode())
     return dtype
 
 
-- 
2.43.0


From e0eeca082a960c22619abfb610075df148192907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 02/39] fix: RHF make_rdm1 with MPI fails without
 T1-amplitudes, or on a rank without fragments

---
 vayesta/ewf/rdm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vayesta/ewf/rdm.py b/vayesta/ewf/rdm.py
index 83f63a1..a37fd6a 100644
--- a/vayesta/ewf/rdm.py
+++ b/vayesta/ewf/rdm.py
@@ -434,7 +434,9 @@ def make_rdm1_ccsd_global_wf(
 
     if mpi:
         rma.clear()
-        doo, dov, dvv = mpi.nreduce(doo, dov, dvv, target=mpi_target, logfunc=emb.log.timingv)
+        doo, dvv = mpi.nreduce(doo, dvv, target=mpi_target, logfunc=emb.log.timingv)
+        if with_t1:
+            dov = mpi.nreduce(dov, target=mpi_target, logfunc=emb.log.timingv)
         # Make sure no more MPI calls are made after returning some ranks early!
         if mpi_target not in (None, mpi.rank):
             return None
@@ -456,8 +458,9 @@ def make_rdm1_ccsd_global_wf(
         dm1[vir, occ] = dov.T
 
     # --- Some information:
-    emb.log.debug("Cluster-pairs: total= %d  kept= %d (%.1f%%)", total_xy, kept_xy, 100 * kept_xy / total_xy)
-    emb.log.debug("Singular values: total= %d  kept= %d (%.1f%%)", total_sv, kept_sv, 100 * kept_sv / total_sv)
+    # (an MPI rank without any fragments has no pairs)
+    emb.log.debug("Cluster-pairs: total= %d  kept= %d (%.1f%%)", total_xy, kept_xy, 100 * kept_xy / max(total_xy, 1))
+    emb.log.debug("Singular values: total= %d  kept= %d (%.1f%%)", total_sv, kept_sv, 100 * kept_sv / max(total_sv, 1))
 
     return dm1
 
-- 
2.43.0


From 26eec2c2da2e5792ddfb34d729d6d3d921dc08a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 03/39] fix: UHF make_rdm1 with MPI fails without
 T1-amplitudes, or on a rank without fragments

---
 vayesta/ewf/urdm.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vayesta/ewf/urdm.py b/vayesta/ewf/urdm.py
index 3577f8b..e072c91 100644
--- a/vayesta/ewf/urdm.py
+++ b/vayesta/ewf/urdm.py
@@ -668,9 +668,9 @@ def make_rdm1_ccsd_global_wf(
 
     if mpi:
         rma.clear()
-        dooa, doob, dvoa, dvob, dvva, dvvb = mpi.nreduce(
-            dooa, doob, dvoa, dvob, dvva, dvvb, target=mpi_target, logfunc=emb.log.timingv
-        )
+        dooa, doob, dvva, dvvb = mpi.nreduce(dooa, doob, dvva, dvvb, target=mpi_target, logfunc=emb.log.timingv)
+        if with_t1:
+            dvoa, dvob = mpi.nreduce(dvoa, dvob, target=mpi_target, logfunc=emb.log.timingv)
         # Make sure no more MPI calls are made after returning some ranks early!
         if mpi_target not in (None, mpi.rank):
             return None
@@ -716,8 +716,9 @@ def make_rdm1_ccsd_global_wf(
     dm1b = (dm1b + dm1b.T) / 4
 
     # --- Some information:
-    emb.log.debug("Cluster-pairs: total= %d  kept= %d (%.1f%%)", total_xy, kept_xy, 100 * kept_xy / total_xy)
-    emb.log.debug("Singular values total= %d  kept= %d (%.1f%%)", total_sv, kept_sv, 100 * kept_sv / total_sv)
+    # (an MPI rank without any fragments has no pairs)
+    emb.log.debug("Cluster-pairs: total= %d  kept= %d (%.1f%%)", total_xy, kept_xy, 100 * kept_xy / max(total_xy, 1))
+    emb.log.debug("Singular values total= %d  kept= %d (%.1f%%)", total_sv, kept_sv, 100 * kept_sv / max(total_sv, 1))
 
     return dm1a, dm1b
 
-- 
2.43.0


From 960315ca2595c71fd6b1545eb2a06f9eac8d0cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 04/39] fix: make_rdm2_ccsd_proj_lambda(mpi_target=...) made a
 collective call on the target rank only

---
 vayesta/ewf/rdm.py  | 8 ++++----
 vayesta/ewf/urdm.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vayesta/ewf/rdm.py b/vayesta/ewf/rdm.py
index a37fd6a..437ec97 100644
--- a/vayesta/ewf/rdm.py
+++ b/vayesta/ewf/rdm.py
@@ -548,15 +548,15 @@ def make_rdm2_ccsd_proj_lambda(
         rx = x.get_overlap("mo|cluster")
         dm2x = x.make_fragment_dm2cumulant(t_as_lambda=t_as_lambda, sym_t2=sym_t2, approx_cumulant=approx_cumulant)
         dm2 += einsum("ijkl,Ii,Jj,Kk,Ll->IJKL", dm2x, rx, rx, rx, rx)
+    # Collective call, which has to be made on all MPI ranks
+    if with_dm1 is True:
+        with_dm1 = emb.make_rdm1()
     if mpi:
         dm2 = mpi.nreduce(dm2, target=mpi_target, logfunc=emb.log.timingv)
         if mpi_target not in (None, mpi.rank):
             return None
     if isinstance(with_dm1, np.ndarray) or with_dm1:
-        if with_dm1 is True:
-            dm1 = emb.make_rdm1()
-        else:
-            dm1 = with_dm1
+        dm1 = with_dm1
         if not approx_cumulant:
             dm2 += einsum("ij,kl->ijkl", dm1, dm1) - einsum("ij,kl->iklj", dm1, dm1) / 2
         # Remove half of the mean-field contribution
diff --git a/vayesta/ewf/urdm.py b/vayesta/ewf/urdm.py
index e072c91..d2dab41 100644
--- a/vayesta/ewf/urdm.py
+++ b/vayesta/ewf/urdm.py
@@ -799,15 +799,15 @@ def make_rdm2_ccsd_proj_lambda(emb, ao_basis=False, t_as_lambda=None, with_dm1=T
         dm2aa += einsum("ijkl,Ii,Jj,Kk,Ll->IJKL", dm2xaa, ra, ra, ra, ra)
         dm2ab += einsum("ijkl,Ii,Jj,Kk,Ll->IJKL", dm2xab, ra, ra, rb, rb)
         dm2bb += einsum("ijkl,Ii,Jj,Kk,Ll->IJKL", dm2xbb, rb, rb, rb, rb)
+    # Collective call, which has to be made on all MPI ranks
+    if with_dm1 is True:
+        with_dm1 = emb.make_rdm1()
     if mpi:
         dm2aa, dm2ab, dm2bb = mpi.nreduce(dm2aa, dm2ab, dm2bb, target=mpi_target, logfunc=emb.log.timingv)
         if mpi_target not in (None, mpi.rank):
             return None
     if with_dm1:
-        if with_dm1 is True:
-            dm1a, dm1b = emb.make_rdm1()
-        else:
-            dm1a, dm1b = (with_dm1[0].copy(), with_dm1[1].copy())
+        dm1a, dm1b = (with_dm1[0].copy(), with_dm1[1].copy())
         nocca, noccb = emb.nocc
         dm1a[np.diag_indices(nocca)] -= 0.5
         dm1b[np.diag_indices(noccb)] -= 0.5
-- 
2.43.0


From 2c9e2650735299bb248214b31ba7d354e402b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 05/39] fix: get_global_t1/t2(mpi_target=..., ao_basis=True)
 fails on ranks which do not receive the result

---
 vayesta/ewf/amplitudes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vayesta/ewf/amplitudes.py b/vayesta/ewf/amplitudes.py
index c501fe6..c5b029c 100644
--- a/vayesta/ewf/amplitudes.py
+++ b/vayesta/ewf/amplitudes.py
@@ -41,7 +41,7 @@ def get_global_t1_rhf(emb, get_lambda=False, mpi_target=None, ao_basis=False, fo
     # --- MPI
     if mpi:
         t1 = mpi.nreduce(t1, target=mpi_target, logfunc=emb.log.timingv)
-    if ao_basis:
+    if ao_basis and mpi_target in (None, mpi.rank):
         t1 = dot(emb.mo_coeff_occ, t1, emb.mo_coeff_vir.T)
     return t1
 
@@ -85,7 +85,7 @@ def get_global_t2_rhf(emb, get_lambda=False, symmetrize=True, mpi_target=None, a
     # --- MPI
     if mpi:
         t2 = mpi.nreduce(t2, target=mpi_target, logfunc=emb.log.timingv)
-    if ao_basis:
+    if ao_basis and mpi_target in (None, mpi.rank):
         t2 = einsum(
             "Ii,Jj,ijab,Aa,Bb->IJAB", emb.mo_coeff_occ, emb.mo_coeff_occ, t2, emb.mo_coeff_vir, emb.mo_coeff_vir
         )
@@ -125,7 +125,7 @@ def get_global_t1_uhf(emb, get_lambda=False, mpi_target=None, ao_basis=False):
     # --- MPI
     if mpi:
         t1a, t1b = mpi.nreduce(t1a, t1b, target=mpi_target, logfunc=emb.log.timingv)
-    if ao_basis:
+    if ao_basis and mpi_target in (None, mpi.rank):
         t1a = dot(emb.mo_coeff_occ[0], t1a, emb.mo_coeff_vir[0].T)
         t1b = dot(emb.mo_coeff_occ[1], t1b, emb.mo_coeff_vir[1].T)
     return (t1a, t1b)
@@ -166,7 +166,7 @@ def get_global_t2_uhf(emb, get_lambda=False, symmetrize=True, mpi_target=None, a
     # --- MPI
     if mpi:
         t2aa, t2ab, t2bb = mpi.nreduce(t2aa, t2ab, t2bb, target=mpi_target, logfunc=emb.log.timingv)
-    if ao_basis:
+    if ao_basis and mpi_target in (None, mpi.rank):
         coa, cob = emb.mo_coeff_occ
         cva, cvb = emb.mo_coeff_vir
         t2aa = einsum("Ii,Jj,ijab,Aa,Bb->IJAB", coa, coa, t2aa, cva, cva)
-- 
2.43.0


From b828061e3333799101253592a17a3ed0307ff370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 06/39] fix: make_rdm1(mpi_target=...) fails on ranks which do
 not receive the result

---
 vayesta/ewf/ewf.py  | 3 +++
 vayesta/ewf/uewf.py | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 94c4ff1..6c81b16 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -278,6 +278,9 @@ class EWF(Embedding):
     @log_method()
     def _make_rdm1_ccsd_global_wf(self, *args, ao_basis=False, with_mf=True, **kwargs):
         dm1 = self._make_rdm1_ccsd_global_wf_cached(*args, **kwargs)
+        # Only available on the MPI rank 'mpi_target':
+        if dm1 is None:
+            return None
         if with_mf:
             dm1[np.diag_indices(self.nocc)] += 2
         if ao_basis:
diff --git a/vayesta/ewf/uewf.py b/vayesta/ewf/uewf.py
index 17c87c9..c97898c 100644
--- a/vayesta/ewf/uewf.py
+++ b/vayesta/ewf/uewf.py
@@ -79,7 +79,11 @@ class UEWF(REWF, UEmbedding):
 
     @log_method()
     def _make_rdm1_ccsd_global_wf(self, *args, ao_basis=False, with_mf=True, **kwargs):
-        dm1a, dm1b = self._make_rdm1_ccsd_global_wf_cached(*args, **kwargs)
+        dm1 = self._make_rdm1_ccsd_global_wf_cached(*args, **kwargs)
+        # Only available on the MPI rank 'mpi_target':
+        if dm1 is None:
+            return None
+        dm1a, dm1b = dm1
         if with_mf:
             dm1a[np.diag_indices(self.nocc[0])] += 1
             dm1b[np.diag_indices(self.nocc[1])] += 1
-- 
2.43.0


From 09b3c25faf49218facb77f9d4bb33c1398f32f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 07/39] fix: make_rdm1/2_demo(mpi_target=...) fails on ranks
 which do not receive the result

---
 vayesta/core/qemb/rdm.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/vayesta/core/qemb/rdm.py b/vayesta/core/qemb/rdm.py
index 7071f06..cb62d57 100644
--- a/vayesta/core/qemb/rdm.py
+++ b/vayesta/core/qemb/rdm.py
@@ -41,6 +41,8 @@ def make_rdm1_demo_rhf(emb, ao_basis=False, with_mf=True, symmetrize=True, mpi_t
         dm1 += einsum("xi,ij,px,qj->pq", px, dm1x, rx, rx)
     if mpi:
         dm1 = mpi.nreduce(dm1, target=mpi_target, logfunc=emb.log.timingv)
+        if mpi_target not in (None, mpi.rank):
+            return None
     if with_mf is True:
         dm1[np.diag_indices(emb.nocc)] += 2
     if symmetrize:
@@ -85,6 +87,8 @@ def make_rdm1_demo_uhf(emb, ao_basis=False, with_mf=True, symmetrize=True, mpi_t
     if mpi:
         dm1a = mpi.nreduce(dm1a, target=mpi_target, logfunc=emb.log.timingv)
         dm1b = mpi.nreduce(dm1b, target=mpi_target, logfunc=emb.log.timingv)
+        if mpi_target not in (None, mpi.rank):
+            return None
     if with_mf is True:
         dm1a[np.diag_indices(emb.nocc[0])] += 1
         dm1b[np.diag_indices(emb.nocc[1])] += 1
@@ -231,10 +235,15 @@ def make_rdm2_demo_rhf(
         dm2 += einsum("xi,ijkl,px,qj,rk,sl->pqrs", px, dm2x, rx, rx, rx, rx)
     if mpi:
         dm2 = mpi.nreduce(dm2, target=mpi_target, logfunc=emb.log.timingv)
+    # Collective call, which has to be made on all MPI ranks
+    if with_dm1 and part_cumulant:
+        dm1 = make_rdm1_demo_rhf(emb, with_mf=(not approx_cumulant), mpi_target=mpi_target)
+    if mpi and mpi_target not in (None, mpi.rank):
+        return None
     # Add non-cumulant contribution (unless added above, for part_cumulant=False)
     if with_dm1 and part_cumulant:
         if approx_cumulant:
-            ddm1 = make_rdm1_demo_rhf(emb, with_mf=False)
+            ddm1 = dm1
             ddm1[np.diag_indices(emb.nocc)] += 1
             for i in range(emb.nocc):
                 dm2[i, i, :, :] += 2 * ddm1
@@ -242,7 +251,6 @@ def make_rdm2_demo_rhf(
                 dm2[:, i, i, :] -= ddm1
                 dm2[i, :, :, i] -= ddm1
         else:
-            dm1 = make_rdm1_demo_rhf(emb)
             dm2 += einsum("ij,kl->ijkl", dm1, dm1) - einsum("ij,kl->iklj", dm1, dm1) / 2
 
     if symmetrize:
@@ -317,9 +325,14 @@ def make_rdm2_demo_uhf(
         dm2aa = mpi.nreduce(dm2aa, target=mpi_target, logfunc=emb.log.timingv)
         dm2bb = mpi.nreduce(dm2bb, target=mpi_target, logfunc=emb.log.timingv)
         dm2ab = mpi.nreduce(dm2ab, target=mpi_target, logfunc=emb.log.timingv)
+    # Collective call, which has to be made on all MPI ranks
+    if with_dm1 and part_cumulant:
+        dm1 = make_rdm1_demo_uhf(emb, with_mf=(not approx_cumulant), mpi_target=mpi_target)
+    if mpi and mpi_target not in (None, mpi.rank):
+        return None
     if with_dm1 and part_cumulant:
         if approx_cumulant:
-            ddm1a, ddm1b = make_rdm1_demo_uhf(emb, with_mf=False)
+            ddm1a, ddm1b = dm1
             ddm1a[np.diag_indices(emb.nocc[0])] += 0.5
             ddm1b[np.diag_indices(emb.nocc[1])] += 0.5
             for i in range(emb.nocc[0]):
@@ -335,7 +348,7 @@ def make_rdm2_demo_uhf(
                 dm2bb[i, :, :, i] -= ddm1b
                 dm2ab[:, :, i, i] += ddm1a
         else:
-            dm1a, dm1b = make_rdm1_demo_uhf(emb)
+            dm1a, dm1b = dm1
             dm2aa += einsum("ij,kl->ijkl", dm1a, dm1a) - einsum("ij,kl->iklj", dm1a, dm1a)
             dm2bb += einsum("ij,kl->ijkl", dm1b, dm1b) - einsum("ij,kl->iklj", dm1b, dm1b)
             dm2ab += einsum("ij,kl->ijkl", dm1a, dm1b)
-- 
2.43.0


From 227de59b1fedb486693982dbd786d8483abbb2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 08/39] fix: get_dmet_elec_energy with MPI leaves unmatched
 messages, and fails with mpi_target

---
 vayesta/core/qemb/fragment.py | 1 -
 vayesta/core/qemb/qemb.py     | 6 +++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index 773ec81..de7e74a 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -1024,7 +1024,6 @@ class Fragment:
         mo_energy = einsum("ai,ab,bi->i", c_active, fock, c_active)
         return mo_energy
 
-    @mpi.with_send(source=get_fragment_mpi_rank)
     def get_fragment_dmet_energy(
         self, dm1=None, dm2=None, h1e_eff=None, hamil=None, part_cumulant=True, approx_cumulant=True
     ):
diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 958ca89..b0b69ed 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1292,8 +1292,12 @@ class Embedding:
         if mpi:
             e_dmet = mpi.nreduce(e_dmet, target=mpi_target, logfunc=self.log.timingv)
 
+        # Collective call, which has to be made on all MPI ranks
+        if part_cumulant:
+            dm1 = self.make_rdm1_demo(ao_basis=True, mpi_target=mpi_target)
+        if mpi and mpi_target not in (None, mpi.rank):
+            return None
         if part_cumulant:
-            dm1 = self.make_rdm1_demo(ao_basis=True)
             if not approx_cumulant:
                 vhf = self.get_veff_for_energy(dm1=dm1, with_exxdiv=False)
             elif int(approx_cumulant) == 1:
-- 
2.43.0


From 39ab5a1e82a6e2d96ace72bbe28e5ca64ec957b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 09/39] fix: get_dm_corr_energy(dm2='global-wf') is too large
 by the number of MPI ranks

---
 vayesta/ewf/ewf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 6c81b16..805bc98 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -416,6 +416,8 @@ class EWF(Embedding):
                     + einsum("pqrs,pqrs", gbb, dm2bb) / 2
                     + einsum("pqrs,pqrs", gab, dm2ab)
                 )
+            # The global 2-DM is known to all MPI ranks, but the result will be summed over ranks
+            e2 /= len(mpi)
         elif dm2 == "projected-lambda":
             e2 = 0.0
             for x in self.get_fragments(contributes=True, sym_parent=None, mpi_rank=mpi.rank):
-- 
2.43.0


From 5b157722d5d631f7e3ed0fd8130a2a46f7ea019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:36 +0000
Subject: [PATCH 10/39] fix: unrestricted MP2 wave functions cannot be packed
 for MPI communication

---
 vayesta/core/types/wf/mp2.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/mp2.py b/vayesta/core/types/wf/mp2.py
index 7da5511..34ad7ef 100644
--- a/vayesta/core/types/wf/mp2.py
+++ b/vayesta/core/types/wf/mp2.py
@@ -2,7 +2,7 @@ import numpy as np
 from vayesta.core import spinalg
 from vayesta.core.util import callif, dot, einsum
 from vayesta.core.types import wf as wf_types
-from vayesta.core.types.orbitals import SpatialOrbitals
+from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals
 from vayesta.core.types.wf.project import project_c2, project_uc2, symmetrize_c2, symmetrize_uc2
 from vayesta.core.helper import pack_arrays, unpack_arrays
 
@@ -194,3 +194,22 @@ class UMP2_WaveFunction(RMP2_WaveFunction):
 
     def multiply(self, factor):
         self.t2 = spinalg.multiply(self.t2, len(self.t2) * [factor])
+
+    def pack(self, dtype=float):
+        """Pack into a single array of data type `dtype`.
+
+        Useful for communication via MPI."""
+        mo = self.mo.pack(dtype=dtype)
+        projector = self.projector if self.projector is not None else [None, None]
+        data = (mo, *projector, *self.t2)
+        return pack_arrays(*data, dtype=dtype)
+
+    @classmethod
+    def unpack(cls, packed):
+        """Unpack from a single array of data type `dtype`.
+
+        Useful for communication via MPI."""
+        mo, proja, projb, *t2 = unpack_arrays(packed)
+        mo = SpinOrbitals.unpack(mo)
+        projector = (proja, projb) if proja is not None else None
+        return cls(mo, tuple(t2), projector=projector)
-- 
2.43.0


From 5c17f9fbf149e755b19bc869e43e68fb20ceec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 11/39] fix: make_rdm1 with MPI fails for wave functions
 without pack method, and without use_sym

---
 vayesta/ewf/rdm.py  | 7 ++++---
 vayesta/ewf/urdm.py | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/vayesta/ewf/rdm.py b/vayesta/ewf/rdm.py
index 437ec97..80dd3de 100644
--- a/vayesta/ewf/rdm.py
+++ b/vayesta/ewf/rdm.py
@@ -233,9 +233,10 @@ def make_rdm1_ccsd_global_wf(
         # TODO: use L-amplitudes of cluster X and T-amplitudes,
         # Only send T-amplitudes via RMA?
         # rma = {x.id: x.results.pwf.pack() for x in emb.get_fragments(active=True, mpi_rank=mpi.rank)}
-        rma = {
-            x.id: x.results.pwf.pack() for x in emb.get_fragments(contributes=True, mpi_rank=mpi.rank, sym_parent=None)
-        }
+        rma = {}
+        for x in emb.get_fragments(contributes=True, mpi_rank=mpi.rank, **(dict(sym_parent=None) if use_sym else {})):
+            pwf = x.results.pwf if x.solver == "MP2" else x.results.pwf.as_ccsd()
+            rma[x.id] = pwf.pack()
         rma = mpi.create_rma_dict(rma)
 
     # --- Loop over pairs of fragments and add projected density-matrix contributions:
diff --git a/vayesta/ewf/urdm.py b/vayesta/ewf/urdm.py
index d2dab41..0dc5402 100644
--- a/vayesta/ewf/urdm.py
+++ b/vayesta/ewf/urdm.py
@@ -239,7 +239,10 @@ def make_rdm1_ccsd_global_wf(
     if mpi:
         # TODO: use L-amplitudes of cluster X and T-amplitudes,
         # Only send T-amplitudes via RMA?
-        rma = {x.id: x.results.pwf.pack() for x in emb.get_fragments(contributes=True, mpi_rank=mpi.rank)}
+        rma = {}
+        for x in emb.get_fragments(contributes=True, mpi_rank=mpi.rank):
+            pwf = x.results.pwf if x.solver == "MP2" else x.results.pwf.as_ccsd()
+            rma[x.id] = pwf.pack()
         rma = mpi.create_rma_dict(rma)
 
     # --- Loop over pairs of fragments and add projected density-matrix contributions:
-- 
2.43.0


From 410f76973b29c357199dc5afa32f4becc3dc0b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 12/39] fix: arrays which are not C-contiguous are scrambled in
 RMA_Dict

---
 vayesta/mpi/rma.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/mpi/rma.py b/vayesta/mpi/rma.py
index 6312184..22474cc 100644
--- a/vayesta/mpi/rma.py
+++ b/vayesta/mpi/rma.py
@@ -51,6 +51,8 @@ class RMA_Dict:
             assert self.shape == data.shape
             assert self.dtype == data.dtype
             self.rma_lock()
+            # MPI.Put transfers the memory as it is, but get expects C-order
+            data = np.ascontiguousarray(data)
             self.rma_put(data)
             self.rma_unlock()
 
-- 
2.43.0


From 778200f0387e542af88e5e9f597e22c3370e46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 13/39] fix: RMA_Dict.clear fails if the value of a key is None

---
 vayesta/mpi/rma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vayesta/mpi/rma.py b/vayesta/mpi/rma.py
index 22474cc..ca004b1 100644
--- a/vayesta/mpi/rma.py
+++ b/vayesta/mpi/rma.py
@@ -108,6 +108,9 @@ class RMA_Dict:
             return self.win.Get(buf, target_rank=self.location, **kwargs)
 
         def free(self):
+            # No window was allocated for None
+            if self.win is None:
+                return
             return self.win.Free()
 
     @property
-- 
2.43.0


From 2f34d73a9096bbc13332dc75028fae9316675f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 14/39] fix: RMA_Dict does not free the windows of replaced and
 deleted elements

---
 vayesta/mpi/rma.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vayesta/mpi/rma.py b/vayesta/mpi/rma.py
index ca004b1..a20bdbe 100644
--- a/vayesta/mpi/rma.py
+++ b/vayesta/mpi/rma.py
@@ -150,7 +150,9 @@ class RMA_Dict:
     def __delitem__(self, key):
         if not self._writable:
             raise AttributeError("Cannot write to ArrayCollection outside of with-statement.")
-        del self._elements[key]
+        element = self._elements.pop(key)
+        if self.mpi.enabled:
+            element.free()
 
     def __enter__(self):
         self._writable = True
@@ -228,6 +230,10 @@ class RMA_Dict:
                     elements[key] = self.RMA_DictElement(self, location=rank, data=data, shape=shape, dtype=dtype)
                 else:
                     elements[key] = self.RMA_DictElement(self, location=rank, shape=shape, dtype=dtype)
+        # Free windows of replaced elements
+        for key in elements:
+            if key in self._elements:
+                self._elements[key].free()
         self._elements.update(elements)
         self.mpi.world.Barrier()
         self.local_data = {}
-- 
2.43.0


From 0b4df7c30b337d5c50a562ca0029ad4dfca518e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:56 +0000
Subject: [PATCH 15/39] fix: bcast of a zero-dimensional array changes its
 shape on the root process

---
 vayesta/mpi/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/mpi/interface.py b/vayesta/mpi/interface.py
index 20f8ad2..f1878a4 100644
--- a/vayesta/mpi/interface.py
+++ b/vayesta/mpi/interface.py
@@ -121,7 +121,7 @@ class MPI_Interface:
 
         # --- Second Bcast using buffer interface
         if self.rank == root:
-            obj = np.ascontiguousarray(obj)
+            obj = np.asarray(obj, order="C")
         else:
             obj = np.empty(data.shape, dtype=data.dtype)
         self.log.debug("Broadcasting array: size= %d memory= %s", obj.size, memory_string(obj.nbytes))
-- 
2.43.0


From e688e42b15a9f9c267d9b5ce9c7043b9cbbf88c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:56 +0000
Subject: [PATCH 16/39] fix: MPI ranks use the orbitals of the first rank with
 their own occupations

---
 vayesta/core/qemb/qemb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index b0b69ed..133d49e 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -313,7 +313,7 @@ class Embedding:
             self._reset()
 
     def _mpi_bcast_mf(self, mf):
-        """Use mo_energy and mo_coeff from master MPI rank only."""
+        """Use mo_energy, mo_coeff, and mo_occ from master MPI rank only."""
         # If vayesta.misc.scf_with_mpi was used, we do not need broadcast
         # as the MO coefficients will already be the same
         if getattr(mf, "with_mpi", False):
@@ -330,6 +330,7 @@ class Embedding:
             # Use MOs of master process
             mf.mo_energy = mpi.world.bcast(mf.mo_energy, root=0)
             mf.mo_coeff = mpi.world.bcast(mf.mo_coeff, root=0)
+            mf.mo_occ = mpi.world.bcast(mf.mo_occ, root=0)
 
     def init_mf(self, mf):
         self._mf_orig = (
-- 
2.43.0


From c2bbb04b4f34c18c2783c93c2e59b092087773f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:19 +0000
Subject: [PATCH 17/39] fix: ChempotBisection reports the convergence of an
 earlier run

---
 vayesta/misc/cptbisect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/misc/cptbisect.py b/vayesta/misc/cptbisect.py
index 812bdcf..7134c9d 100644
--- a/vayesta/misc/cptbisect.py
+++ b/vayesta/misc/cptbisect.py
@@ -16,6 +16,7 @@ class ChempotBisection:
         self.log = log or vayesta.log
 
     def kernel(self, *args, **kwargs):
+        self.converged = False
         cpt1 = self.cpt
         err1 = self.func(cpt1, *args, **kwargs)
         if abs(err1) <= self.tol:
-- 
2.43.0


From c77f3d49b8d7dd6ceeb073d1edeb9851f09ba220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:19 +0000
Subject: [PATCH 18/39] fix: SCMF reports the convergence of an earlier run

---
 vayesta/core/scmf/scmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/scmf/scmf.py b/vayesta/core/scmf/scmf.py
index 063406e..1949958 100644
--- a/vayesta/core/scmf/scmf.py
+++ b/vayesta/core/scmf/scmf.py
@@ -78,7 +78,7 @@ class SCMF:
         return False, de, ddm
 
     def kernel(self, *args, **kwargs):
-        
+        self.converged = False
         if self.diis:
             diis = self.get_diis()
             if type(diis) is tuple:
-- 
2.43.0


From 59db5b06c20ab5c1fa6780c5dad95b401548b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:19 +0000
Subject: [PATCH 19/39] fix: optimize_cpt uses the error of the initial guess
 for zero chemical potential

---
 vayesta/solver/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/solver/solver.py b/vayesta/solver/solver.py
index f893487..51229b8 100644
--- a/vayesta/solver/solver.py
+++ b/vayesta/solver/solver.py
@@ -93,8 +93,8 @@ class ClusterSolver:
 
             def electron_err(cpt):
                 nonlocal result, err, err0, cpt_opt, iterations, init_guess
-                # Avoid recalculation of cpt=0.0 in SciPy:
-                if (cpt == 0) and (err0 is not None):
+                # Avoid recalculation of cpt=cpt_guess in SciPy:
+                if (cpt == cpt_guess) and (err0 is not None):
                     self.log.debugv("Chemical potential %f already calculated - returning error= %.8f", cpt, err0)
                     return err0
 
-- 
2.43.0


From de3fe2acf7b23450f3a57774b67771e78afb5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:19 +0000
Subject: [PATCH 20/39] fix: non-converged CISD solvers are reported as
 converged

---
 vayesta/solver/cisd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/cisd.py b/vayesta/solver/cisd.py
index 46a7cca..aa06ad1 100644
--- a/vayesta/solver/cisd.py
+++ b/vayesta/solver/cisd.py
@@ -31,7 +31,7 @@ class RCISD_Solver(ClusterSolver):
         ecisd, civec = mycisd.kernel()
         c0, c1, c2 = mycisd.cisdvec_to_amplitudes(civec)
         self.wf = CISD_WaveFunction(self.hamil.mo, c0, c1, c2)
-        self.converged = True
+        self.converged = mycisd.converged
 
     def get_solver_class(self):
         return ci.RCISD
-- 
2.43.0


From 0b160e72c2ecb7487b1bc3017a34481697cbb6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:19 +0000
Subject: [PATCH 21/39] fix: tailored CCSD with a non-converged FCI calculation
 is reported as converged

---
 vayesta/solver/tccsd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vayesta/solver/tccsd.py b/vayesta/solver/tccsd.py
index 8694e2d..daee854 100644
--- a/vayesta/solver/tccsd.py
+++ b/vayesta/solver/tccsd.py
@@ -17,6 +17,12 @@ class TRCCSD_Solver(RCCSD_Solver):
         c_cas_occ: np.array = None
         c_cas_vir: np.array = None
 
+    def kernel(self, *args, **kwargs):
+        res = super().kernel(*args, **kwargs)
+        # The tailored amplitudes cannot be converged, if the FCI amplitudes are not
+        self.converged = self.converged and self._fci_converged
+        return res
+
     def get_callback(self):
         # Just need to generate FCI soln to reduced cluster, then make callback function.
         orbs = Orbitals(hstack_matrices(self.opts.c_cas_occ, self.opts.c_cas_vir), occ=self.opts.c_cas_occ.shape[-1])
@@ -33,6 +39,7 @@ class TRCCSD_Solver(RCCSD_Solver):
             fci.v_ext = dot(r.T, self.v_ext, r)
 
         fci.kernel()
+        self._fci_converged = fci.converged
         if not fci.converged:
             self.log.error("FCI not converged!")
         wf = fci.wf.as_ccsd()
-- 
2.43.0


From 5e0a3663f4470efecde9f6986bb2c52d7f05c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:14 +0000
Subject: [PATCH 22/39] fix: DMET with non-converged fragments is reported as
 converged

---
 vayesta/dmet/dmet.py     | 7 +++++--
 vayesta/dmet/fragment.py | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/vayesta/dmet/dmet.py b/vayesta/dmet/dmet.py
index 950a4b7..c031290 100644
--- a/vayesta/dmet/dmet.py
+++ b/vayesta/dmet/dmet.py
@@ -209,8 +209,11 @@ class DMET(Embedding):
             delta = sum((vcorr_new - self.vcorr).reshape(-1) ** 2) ** (0.5)
             self.log.info("Delta Vcorr {:6.4e}".format(delta))
             if delta < self.opts.conv_tol:
-                self.converged = True
-                self.log.info("DMET converged after %d iterations" % iteration)
+                self.converged = all(frag.results.converged for frag in sym_parents)
+                if self.converged:
+                    self.log.info("DMET converged after %d iterations" % iteration)
+                else:
+                    self.log.error("Some fragments did not converge!")
                 break
             self.vcorr = vcorr_new
         else:
diff --git a/vayesta/dmet/fragment.py b/vayesta/dmet/fragment.py
index d23b854..2e52e61 100644
--- a/vayesta/dmet/fragment.py
+++ b/vayesta/dmet/fragment.py
@@ -80,6 +80,7 @@ class DMETFragment(Fragment):
         self.hamil = cluster_solver.hamil
         self._results = results = self.Results(
             fid=self.id,
+            converged=cluster_solver.converged,
             wf=cluster_solver.wf,
             n_active=self.cluster.norb_active,
             dm1=cluster_solver.wf.make_rdm1(),
-- 
2.43.0


From 9ff6a5956f36b66f77161bef6ca61052431e2392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:47 +0000
Subject: [PATCH 23/39] fix: log messages stay indented after an exception

---
 vayesta/core/bath/bno.py                    |  7 ++-
 vayesta/core/bath/dmet.py                   | 57 ++++++++++-----------
 vayesta/core/bosonic_bath/bbath.py          |  7 ++-
 vayesta/core/fragmentation/fragmentation.py | 18 +++++--
 vayesta/dmet/dmet.py                        | 18 +++----
 vayesta/edmet/edmet.py                      | 20 +++-----
 6 files changed, 63 insertions(+), 64 deletions(-)

diff --git a/vayesta/core/bath/bno.py b/vayesta/core/bath/bno.py
index 71dd601..d46cb69 100644
--- a/vayesta/core/bath/bno.py
+++ b/vayesta/core/bath/bno.py
@@ -105,10 +105,9 @@ class BNO_Bath(Bath):
             return c_env, tuple(2 * [np.zeros(0)]), None
         self.log.info("Making %s BNOs", self.occtype.capitalize())
         self.log.info("-------%s-----", len(self.occtype) * "-")
-        self.log.changeIndentLevel(1)
-        coeff, occup, ecorr = self.make_bno_coeff()
-        self.log_histogram(occup)
-        self.log.changeIndentLevel(-1)
+        with self.log.indent():
+            coeff, occup, ecorr = self.make_bno_coeff()
+            self.log_histogram(occup)
         self.coeff = coeff
         self.occup = occup
         return coeff, occup, ecorr
diff --git a/vayesta/core/bath/dmet.py b/vayesta/core/bath/dmet.py
index c0f38c0..d869206 100644
--- a/vayesta/core/bath/dmet.py
+++ b/vayesta/core/bath/dmet.py
@@ -40,35 +40,34 @@ class DMET_Bath_RHF(Bath):
         # --- DMET bath
         self.log.info("Making DMET Bath")
         self.log.info("----------------")
-        self.log.changeIndentLevel(1)
-        t0 = timer()
-        c_dmet, n_dmet, c_env_occ, c_env_vir = self.make_dmet_bath(self.fragment.c_env)
-
-        # --- Separate occupied and virtual in cluster
-        cluster = [self.c_frag, c_dmet]
-        self.base._check_orthonormal(*cluster, mo_name="cluster MO")
-        tol = self.base.opts.bath_options["occupation_tolerance"]
-        c_cluster_occ, c_cluster_vir = self.fragment.diagonalize_cluster_dm(*cluster, tol=tol)
-        # Canonicalize
-        c_cluster_occ = self.fragment.canonicalize_mo(c_cluster_occ)[0]
-        c_cluster_vir = self.fragment.canonicalize_mo(c_cluster_vir)[0]
-        if self.base.is_rhf:
-            self.log.info(
-                "Cluster orbitals:  n(occ)= %3d  n(vir)= %3d", c_cluster_occ.shape[-1], c_cluster_vir.shape[-1]
-            )
-        else:
-            self.log.info(
-                "Alpha-cluster orbitals:  n(occ)= %3d  n(vir)= %3d",
-                c_cluster_occ[0].shape[-1],
-                c_cluster_vir[0].shape[-1],
-            )
-            self.log.info(
-                " Beta-cluster orbitals:  n(occ)= %3d  n(vir)= %3d",
-                c_cluster_occ[1].shape[-1],
-                c_cluster_vir[1].shape[-1],
-            )
-        self.log.timing("Time for DMET bath:  %s", time_string(timer() - t0))
-        self.log.changeIndentLevel(-1)
+        with self.log.indent():
+            t0 = timer()
+            c_dmet, n_dmet, c_env_occ, c_env_vir = self.make_dmet_bath(self.fragment.c_env)
+
+            # --- Separate occupied and virtual in cluster
+            cluster = [self.c_frag, c_dmet]
+            self.base._check_orthonormal(*cluster, mo_name="cluster MO")
+            tol = self.base.opts.bath_options["occupation_tolerance"]
+            c_cluster_occ, c_cluster_vir = self.fragment.diagonalize_cluster_dm(*cluster, tol=tol)
+            # Canonicalize
+            c_cluster_occ = self.fragment.canonicalize_mo(c_cluster_occ)[0]
+            c_cluster_vir = self.fragment.canonicalize_mo(c_cluster_vir)[0]
+            if self.base.is_rhf:
+                self.log.info(
+                    "Cluster orbitals:  n(occ)= %3d  n(vir)= %3d", c_cluster_occ.shape[-1], c_cluster_vir.shape[-1]
+                )
+            else:
+                self.log.info(
+                    "Alpha-cluster orbitals:  n(occ)= %3d  n(vir)= %3d",
+                    c_cluster_occ[0].shape[-1],
+                    c_cluster_vir[0].shape[-1],
+                )
+                self.log.info(
+                    " Beta-cluster orbitals:  n(occ)= %3d  n(vir)= %3d",
+                    c_cluster_occ[1].shape[-1],
+                    c_cluster_vir[1].shape[-1],
+                )
+            self.log.timing("Time for DMET bath:  %s", time_string(timer() - t0))
 
         self.c_dmet = c_dmet
         self.n_dmet = n_dmet
diff --git a/vayesta/core/bosonic_bath/bbath.py b/vayesta/core/bosonic_bath/bbath.py
index 859ba1a..2d4031e 100644
--- a/vayesta/core/bosonic_bath/bbath.py
+++ b/vayesta/core/bosonic_bath/bbath.py
@@ -28,10 +28,9 @@ class Bosonic_Bath(Bath):
         mystr = "Making Bosonic Bath"
         self.log.info("%s", mystr)
         self.log.info("-" * len(mystr))
-        self.log.changeIndentLevel(1)
-        coeff, occup = self.make_boson_coeff()
-        self.log_histogram(occup)
-        self.log.changeIndentLevel(-1)
+        with self.log.indent():
+            coeff, occup = self.make_boson_coeff()
+            self.log_histogram(occup)
         self.coeff = coeff
         self.occup = occup
         return coeff, occup
diff --git a/vayesta/core/fragmentation/fragmentation.py b/vayesta/core/fragmentation/fragmentation.py
index 395d624..99b2dee 100644
--- a/vayesta/core/fragmentation/fragmentation.py
+++ b/vayesta/core/fragmentation/fragmentation.py
@@ -58,15 +58,24 @@ class Fragmentation:
     # --- As contextmanager:
 
     def __enter__(self):
-        self.log.changeIndentLevel(1)
+        self._indent = self.log.indent()
+        self._indent.__enter__()
         self._time0 = timer()
-        self.kernel()
+        try:
+            self.kernel()
+        except BaseException:
+            self._indent.__exit__()
+            raise
         return self
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
-        if exc_type is not None:
-            return
+        try:
+            if exc_type is None:
+                self._add_to_embedding()
+        finally:
+            self._indent.__exit__()
 
+    def _add_to_embedding(self):
         if self.add_symmetric:
             # Rotational + inversion symmetries are now done within own context
             # Translation symmetry are done in the fragmentation context (here):
@@ -96,7 +105,6 @@ class Fragmentation:
         )
         self.log.timing("Time for %s fragmentation: %s", self.name, time_string(timer() - self._time0))
         del self._time0
-        self.log.changeIndentLevel(-1)
 
     # --- Adding fragments:
 
diff --git a/vayesta/dmet/dmet.py b/vayesta/dmet/dmet.py
index c031290..8ddc0ef 100644
--- a/vayesta/dmet/dmet.py
+++ b/vayesta/dmet/dmet.py
@@ -233,16 +233,14 @@ class DMET(Embedding):
             msg = "Now running %s" % (frag)
             self.log.info(msg)
             self.log.info(len(msg) * "-")
-            self.log.changeIndentLevel(1)
-            try:
-                result = frag.kernel(construct_bath=construct_bath, chempot=chempot)
-            except DMETFragmentExit as e:
-                exit = True
-                self.log.info("Exiting %s", frag)
-                self.log.changeIndentLevel(-1)
-                raise e
-            self.cluster_results[frag.id] = result
-            self.log.changeIndentLevel(-1)
+            with self.log.indent():
+                try:
+                    result = frag.kernel(construct_bath=construct_bath, chempot=chempot)
+                except DMETFragmentExit as e:
+                    exit = True
+                    self.log.info("Exiting %s", frag)
+                    raise e
+                self.cluster_results[frag.id] = result
             if exit:
                 break
             # Project rdm into fragment space; currently in cluster canonical orbitals.
diff --git a/vayesta/edmet/edmet.py b/vayesta/edmet/edmet.py
index f175011..76bf1f9 100644
--- a/vayesta/edmet/edmet.py
+++ b/vayesta/edmet/edmet.py
@@ -289,18 +289,14 @@ class EDMET(RDMET):
             msg = "Now running %s" % (frag)
             self.log.info(msg)
             self.log.info(len(msg) * "*")
-            self.log.changeIndentLevel(1)
-
-            try:
-                result = frag.kernel(construct_bath=construct_bath, chempot=chempot)
-            except EDMETFragmentExit as e:
-                exit = True
-                self.log.info("Exiting %s", frag)
-                self.log.changeIndentLevel(-1)
-                raise e
-
-            self.cluster_results[frag.id] = result
-            self.log.changeIndentLevel(-1)
+            with self.log.indent():
+                try:
+                    result = frag.kernel(construct_bath=construct_bath, chempot=chempot)
+                except EDMETFragmentExit as e:
+                    exit = True
+                    self.log.info("Exiting %s", frag)
+                    raise e
+                self.cluster_results[frag.id] = result
             if exit:
                 break
 
-- 
2.43.0


From 9482baeb6589ff4ac52f51f7e97af8f584bc0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:54 +0000
Subject: [PATCH 24/39] fix: an exception in make_bath leaves a half-built bath
 behind

---
 vayesta/core/qemb/fragment.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index de7e74a..ac8d25c 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -865,7 +865,6 @@ class Fragment:
         # --- DMET bath
         dmet = DMET_Bath(self, dmet_threshold=self.opts.bath_options["dmet_threshold"])
         dmet.kernel()
-        self._dmet_bath = dmet
 
         # --- Additional bath
         def get_bath(occtype):
@@ -917,8 +916,12 @@ class Fragment:
                 )
             raise NotImplementedError("bathtype= %s" % btype)
 
-        self._bath_factory_occ = get_bath(occtype="occupied")
-        self._bath_factory_vir = get_bath(occtype="virtual")
+        factory_occ = get_bath(occtype="occupied")
+        factory_vir = get_bath(occtype="virtual")
+        # Set attributes together, so that an exception above does not leave a half-built bath
+        self._dmet_bath = dmet
+        self._bath_factory_occ = factory_occ
+        self._bath_factory_vir = factory_vir
 
     def make_cluster(self):
         def get_orbitals(occtype):
-- 
2.43.0


From 2141e9d8571cb26182743e21b4f60d2e7902ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:54 +0000
Subject: [PATCH 25/39] fix: energy contributions of the original mean-field
 object are modified

---
 vayesta/core/qemb/qemb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 133d49e..34f6e20 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -341,6 +341,9 @@ class Embedding:
         # embedding method if attributes are replaced in their entirety
         # (eg. `mf.mo_coeff = mo_new` instead of `mf.mo_coeff[:] = mo_new`).
         mf = copy.copy(mf)
+        # The energy contributions are stored in this dictionary in-place (PySCF's energy_elec/energy_nuc)
+        if getattr(mf, "scf_summary", None) is not None:
+            mf.scf_summary = mf.scf_summary.copy()
         self.log.debugv("type(mf)= %r", type(mf))
         # If the mean-field has k-points, automatically fold to the supercell:
         if isinstance(mf, pyscf.pbc.scf.khf.KSCF):
-- 
2.43.0


From 76ebdf103559d88bdd96abb9c002cb53531a06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:54 +0000
Subject: [PATCH 26/39] fix: an interrupted chemical potential search changes
 the options of the embedding

---
 vayesta/core/qemb/qemb.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 34f6e20..9f32658 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1724,7 +1724,13 @@ class Embedding:
 
         def kernel(self, *args, **kwargs):
             nonlocal iters, result
-            cpt = bisect.kernel(*args, **kwargs)
+            cpt_orig = self.opts.global_frag_chempot
+            try:
+                cpt = bisect.kernel(*args, **kwargs)
+            except BaseException:
+                # Do not leave the trial value of an interrupted search behind
+                self.opts.global_frag_chempot = cpt_orig
+                raise
             # Print info:
             self.log.info("Chemical potential optimization")
             self.log.info("-------------------------------")
-- 
2.43.0


From b1d72cc30469c270d5646bd415db4a7fc78b3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:14 +0000
Subject: [PATCH 27/39] fix: fragments of a failing fragmentation remain in the
 embedding

---
 vayesta/core/fragmentation/fragmentation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/fragmentation/fragmentation.py b/vayesta/core/fragmentation/fragmentation.py
index 99b2dee..0802d0a 100644
--- a/vayesta/core/fragmentation/fragmentation.py
+++ b/vayesta/core/fragmentation/fragmentation.py
@@ -71,7 +71,12 @@ class Fragmentation:
     def __exit__(self, exc_type, exc_value, exc_traceback):
         try:
             if exc_type is None:
-                self._add_to_embedding()
+                nfrag = len(self.emb.fragments)
+                try:
+                    self._add_to_embedding()
+                except BaseException:
+                    del self.emb.fragments[nfrag:]
+                    raise
         finally:
             self._indent.__exit__()
 
-- 
2.43.0


From a077827ea4914e0ecea5357a17df1edcf97a043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 28/39] fix: make_rdm1 returns the density matrix of an earlier
 run or of earlier options

---
 vayesta/ewf/ewf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 805bc98..aff6bd9 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -90,6 +90,11 @@ class EWF(Embedding):
         self.iteration = 0
         self._make_rdm1_ccsd_global_wf_cached.cache_clear()
 
+    def change_options(self, **kwargs):
+        super().change_options(**kwargs)
+        # The cached density matrix depends on options, e.g. t_as_lambda
+        self._make_rdm1_ccsd_global_wf_cached.cache_clear()
+
     # Default fragmentation
     def fragmentation(self, *args, **kwargs):
         return self.iao_fragmentation(*args, **kwargs)
@@ -104,6 +109,8 @@ class EWF(Embedding):
     def kernel(self):
         """Run EWF."""
         t_start = timer()
+        # The density matrix of an earlier run must not be returned after this one
+        self._make_rdm1_ccsd_global_wf_cached.cache_clear()
         # Automatic fragmentation
         if len(self.fragments) == 0:
             self.log.debug("No fragments found. Adding all atomic IAO fragments.")
-- 
2.43.0


From 23ce3e8494ebd366deacd41cf39b7279edb6cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:10 +0000
Subject: [PATCH 29/39] fix: incomplete entries are left in the file when
 dumping a cluster fails

---
 vayesta/solver/dump.py | 105 +++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 47 deletions(-)

diff --git a/vayesta/solver/dump.py b/vayesta/solver/dump.py
index 97424ee..efec811 100644
--- a/vayesta/solver/dump.py
+++ b/vayesta/solver/dump.py
@@ -20,50 +20,61 @@ class DumpSolver(ClusterSolver):
         else:
             h5file = self.opts.dumpfile
         with h5file as f:
-            grp = h5file.create_group("fragment_%d" % fragment.id)
-            # Attributes
-            grp.attrs["id"] = fragment.id
-            grp.attrs["name"] = fragment.name
-            grp.attrs["norb"] = cluster.norb_active
-            grp.attrs["nocc"] = cluster.nocc_active
-            grp.attrs["nvir"] = cluster.nvir_active
-            c_dmet_cluster_occ = fragment._dmet_bath.c_cluster_occ
-            c_dmet_cluster_vir = fragment._dmet_bath.c_cluster_vir
-            c_dmet_cluster = spinalg.hstack_matrices(c_dmet_cluster_occ, c_dmet_cluster_vir)
-            heff, eris = self.hamil.get_integrals(with_vext=True)
-            if c_dmet_cluster[0].ndim == 1:
-                grp.attrs["norb_dmet_cluster"] = c_dmet_cluster.shape[-1]
-                grp.attrs["nocc_dmet_cluster"] = c_dmet_cluster_occ.shape[-1]
-                grp.attrs["nvir_dmet_cluster"] = c_dmet_cluster_vir.shape[-1]
-                # Orbital coefficients
-                grp.create_dataset("c_frag", data=fragment.c_frag)
-                grp.create_dataset("c_dmet_cluster", data=c_dmet_cluster)
-                grp.create_dataset("c_cluster", data=cluster.c_active)
-                # Integrals
-                grp.create_dataset("heff", data=heff)
-                grp.create_dataset("fock", data=self.hamil.get_fock())
-                grp.create_dataset("eris", data=eris)
-            elif c_dmet_cluster[0].ndim == 2:
-                grp.attrs["norb_dmet_cluster"] = [c_dmet_cluster[s].shape[-1] for s in range(2)]
-                grp.attrs["nocc_dmet_cluster"] = [c_dmet_cluster_occ[s].shape[-1] for s in range(2)]
-                grp.attrs["nvir_dmet_cluster"] = [c_dmet_cluster_vir[s].shape[-1] for s in range(2)]
-                # Orbital coefficients
-                grp.create_dataset("c_frag_a", data=fragment.c_frag[0])
-                grp.create_dataset("c_frag_b", data=fragment.c_frag[1])
-                grp.create_dataset("c_dmet_cluster_a", data=c_dmet_cluster[0])
-                grp.create_dataset("c_dmet_cluster_b", data=c_dmet_cluster[1])
-                grp.create_dataset("c_cluster_a", data=cluster.c_active[0])
-                grp.create_dataset("c_cluster_b", data=cluster.c_active[1])
-                # Integrals
-                heffa, heffb = heff
-                grp.create_dataset("heff_a", data=heffa)
-                grp.create_dataset("heff_b", data=heffb)
-                focka, fockb = self.hamil.get_fock()
-                grp.create_dataset("fock_a", data=focka)
-                grp.create_dataset("fock_b", data=fockb)
-                erisaa, erisab, erisbb = eris
-                grp.create_dataset("eris_aa", data=erisaa)
-                grp.create_dataset("eris_ab", data=erisab)
-                grp.create_dataset("eris_bb", data=erisbb)
-            else:
-                raise NotImplementedError
+            name = "fragment_%d" % fragment.id
+            if name in h5file:
+                raise ValueError("Entry %s already exists in file %s" % (name, h5file.filename))
+            try:
+                self._write_cluster(h5file.create_group(name), fragment, cluster)
+            except BaseException:
+                # Do not leave an incomplete entry behind
+                if name in h5file:
+                    del h5file[name]
+                raise
+
+    def _write_cluster(self, grp, fragment, cluster):
+        # Attributes
+        grp.attrs["id"] = fragment.id
+        grp.attrs["name"] = fragment.name
+        grp.attrs["norb"] = cluster.norb_active
+        grp.attrs["nocc"] = cluster.nocc_active
+        grp.attrs["nvir"] = cluster.nvir_active
+        c_dmet_cluster_occ = fragment._dmet_bath.c_cluster_occ
+        c_dmet_cluster_vir = fragment._dmet_bath.c_cluster_vir
+        c_dmet_cluster = spinalg.hstack_matrices(c_dmet_cluster_occ, c_dmet_cluster_vir)
+        heff, eris = self.hamil.get_integrals(with_vext=True)
+        if c_dmet_cluster[0].ndim == 1:
+            grp.attrs["norb_dmet_cluster"] = c_dmet_cluster.shape[-1]
+            grp.attrs["nocc_dmet_cluster"] = c_dmet_cluster_occ.shape[-1]
+            grp.attrs["nvir_dmet_cluster"] = c_dmet_cluster_vir.shape[-1]
+            # Orbital coefficients
+            grp.create_dataset("c_frag", data=fragment.c_frag)
+            grp.create_dataset("c_dmet_cluster", data=c_dmet_cluster)
+            grp.create_dataset("c_cluster", data=cluster.c_active)
+            # Integrals
+            grp.create_dataset("heff", data=heff)
+            grp.create_dataset("fock", data=self.hamil.get_fock())
+            grp.create_dataset("eris", data=eris)
+        elif c_dmet_cluster[0].ndim == 2:
+            grp.attrs["norb_dmet_cluster"] = [c_dmet_cluster[s].shape[-1] for s in range(2)]
+            grp.attrs["nocc_dmet_cluster"] = [c_dmet_cluster_occ[s].shape[-1] for s in range(2)]
+            grp.attrs["nvir_dmet_cluster"] = [c_dmet_cluster_vir[s].shape[-1] for s in range(2)]
+            # Orbital coefficients
+            grp.create_dataset("c_frag_a", data=fragment.c_frag[0])
+            grp.create_dataset("c_frag_b", data=fragment.c_frag[1])
+            grp.create_dataset("c_dmet_cluster_a", data=c_dmet_cluster[0])
+            grp.create_dataset("c_dmet_cluster_b", data=c_dmet_cluster[1])
+            grp.create_dataset("c_cluster_a", data=cluster.c_active[0])
+            grp.create_dataset("c_cluster_b", data=cluster.c_active[1])
+            # Integrals
+            heffa, heffb = heff
+            grp.create_dataset("heff_a", data=heffa)
+            grp.create_dataset("heff_b", data=heffb)
+            focka, fockb = self.hamil.get_fock()
+            grp.create_dataset("fock_a", data=focka)
+            grp.create_dataset("fock_b", data=fockb)
+            erisaa, erisab, erisbb = eris
+            grp.create_dataset("eris_aa", data=erisaa)
+            grp.create_dataset("eris_ab", data=erisab)
+            grp.create_dataset("eris_bb", data=erisbb)
+        else:
+            raise NotImplementedError
-- 
2.43.0


From 96c3852bfc16e676b8d140f39381341884a736b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:10 +0000
Subject: [PATCH 30/39] fix: MPI processes open the dump file at the same time

---
 vayesta/ewf/ewf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index aff6bd9..5ec65de 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -168,7 +168,11 @@ class EWF(Embedding):
             # Split fragments in auxiliary and regular, solve auxiliary fragments first
             fragments_aux = [x for x in fragments if x.opts.auxiliary]
             fragments_reg = [x for x in fragments if not x.opts.auxiliary]
+            # Only one process at a time can write to the dump file
+            is_dump = self.solver.lower() == "dump"
             for frags in [fragments_aux, fragments_reg]:
+                for _ in range(mpi.rank if is_dump else 0):
+                    mpi.world.Barrier()
                 for x in frags:
                     msg = "Solving %s%s" % (x, (" on MPI process %d" % mpi.rank) if mpi else "")
                     self.log.info(msg)
@@ -176,9 +180,10 @@ class EWF(Embedding):
                     with self.log.indent():
                         x.kernel()
                 if mpi:
-                    mpi.world.Barrier()
+                    for _ in range(mpi.size - mpi.rank if is_dump else 1):
+                        mpi.world.Barrier()
 
-        if self.solver.lower() == "dump":
+        if is_dump:
             self.log.output("Clusters dumped to file '%s'", self.opts.solver_options["dumpfile"])
             return
 
-- 
2.43.0


From a7a899226c0df8968a6f7d417ed99584fbc76439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 31/39] fix: plot3d of fragments passes arguments which
 CubeFile does not have

---
 vayesta/core/qemb/fragment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index ac8d25c..d4cedce 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -1148,11 +1148,10 @@ class Fragment:
 
     def plot3d(self, filename, gridsize=(100, 100, 100), **kwargs):
         """Write cube density data of fragment orbitals to file."""
-        nx, ny, nz = gridsize
         directory = os.path.dirname(filename)
         if directory:
             os.makedirs(directory, exist_ok=True)
-        cube = CubeFile(self.mol, filename=filename, nx=nx, ny=ny, nz=nz, **kwargs)
+        cube = CubeFile(self.mol, filename=filename, gridsize=gridsize, **kwargs)
         cube.add_orbital(self.c_frag)
         cube.write()
 
-- 
2.43.0


From fb624013d089fa534c0ef88867d6fc8d2d639611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 32/39] fix: population analysis of fragments on other MPI
 processes than 0 is not written

---
 vayesta/core/qemb/fragment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index d4cedce..bf01731 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -1144,6 +1144,8 @@ class Fragment:
         if dm1 is None:
             raise ValueError("DM1 not found for %s" % self)
         dm1 = cluster.make_frozen_rdm1() + spinalg.dot(cluster.coeff, dm1, spinalg.T(cluster.coeff))
+        # Only the MPI process of the fragment gets here
+        kwargs["mpi_rank"] = mpi.rank
         return self.base.pop_analysis(dm1, **kwargs)
 
     def plot3d(self, filename, gridsize=(100, 100, 100), **kwargs):
-- 
2.43.0


From 068884a0bdc89258937dd2ddca37bf7f45b4ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 33/39] fix: failure of CubeFile.save_state is not reported or
 leaves the object without cell

---
 vayesta/misc/cubefile.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vayesta/misc/cubefile.py b/vayesta/misc/cubefile.py
index bfdf671..ada1092 100644
--- a/vayesta/misc/cubefile.py
+++ b/vayesta/misc/cubefile.py
@@ -134,12 +134,16 @@ class CubeFile:
 
     def save_state(self, filename):
         cell, self.cell = self.cell, None  # Do not pickle cell
-        pickle.dump(self, open(filename, "wb"))
-        self.cell = cell  # Restore self.cell
+        try:
+            with open(filename, "wb") as f:
+                pickle.dump(self, f)
+        finally:
+            self.cell = cell  # Restore self.cell
 
     @classmethod
     def load_state(cls, filename, cell=None):
-        self = pickle.load(open(filename, "rb"))
+        with open(filename, "rb") as f:
+            self = pickle.load(f)
         self.cell = cell
         return self
 
-- 
2.43.0


From 6c4517a8c74b1e8534322e640c4de1c55a0f307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:02 +0000
Subject: [PATCH 34/39] fix: file of population analysis stays open if writing
 fails, and changes later

---
 vayesta/core/qemb/qemb.py | 51 ++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 9f32658..74b01bb 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1,6 +1,7 @@
 import logging
 from datetime import datetime
 import dataclasses
+import contextlib
 import copy
 import itertools
 import os
@@ -1500,34 +1501,34 @@ class Embedding:
             aoslices = self.mol.aoslice_by_atom()[:, 2:]
             aolabels = self.mol.ao_labels()
 
-        if filename is None:
-            write = lambda *args: self.log.info(*args)
-            write("Population analysis")
-            write("-------------------")
-        else:
+        # The file has to be closed, also if writing fails
+        if filename is not None:
             dirname = os.path.dirname(filename)
             if dirname:
                 os.makedirs(dirname, exist_ok=True)
-            f = open(filename, filemode)
-            write = lambda fmt, *args: f.write((fmt + "\n") % args)
-            tstamp = datetime.now()
-            self.log.info('Writing population analysis to file "%s". Time-stamp: %s', filename, tstamp)
-            write("# Time-stamp: %s", tstamp)
-            write("# Population analysis")
-            write("# -------------------")
-
-        for atom, charge in enumerate(charges):
-            write("%3d %-7s  q= % 11.8f  s= % 11.8f", atom, self.mol.atom_symbol(atom) + ":", charge, spins[atom])
-            if orbital_resolved:
-                aos = aoslices[atom]
-                for ao in range(aos[0], aos[1]):
-                    label = aolabels[ao]
-                    if np.ndim(pop[0]) == 1:
-                        write("    %4d %-16s= % 11.8f  % 11.8f" % (ao, label, pop[0][ao], pop[1][ao]))
-                    else:
-                        write("    %4d %-16s= % 11.8f" % (ao, label, pop[ao]))
-        if filename is not None:
-            f.close()
+        with open(filename, filemode) if filename is not None else contextlib.nullcontext() as f:
+            if filename is None:
+                write = lambda *args: self.log.info(*args)
+                write("Population analysis")
+                write("-------------------")
+            else:
+                write = lambda fmt, *args: f.write((fmt + "\n") % args)
+                tstamp = datetime.now()
+                self.log.info('Writing population analysis to file "%s". Time-stamp: %s', filename, tstamp)
+                write("# Time-stamp: %s", tstamp)
+                write("# Population analysis")
+                write("# -------------------")
+
+            for atom, charge in enumerate(charges):
+                write("%3d %-7s  q= % 11.8f  s= % 11.8f", atom, self.mol.atom_symbol(atom) + ":", charge, spins[atom])
+                if orbital_resolved:
+                    aos = aoslices[atom]
+                    for ao in range(aos[0], aos[1]):
+                        label = aolabels[ao]
+                        if np.ndim(pop[0]) == 1:
+                            write("    %4d %-16s= % 11.8f  % 11.8f" % (ao, label, pop[0][ao], pop[1][ao]))
+                        else:
+                            write("    %4d %-16s= % 11.8f" % (ao, label, pop[ao]))
 
     def _check_fragment_nelectron(self, fragments=None, nelec=None):
         if fragments is None:
-- 
2.43.0


From f35937fcee30e7472a5cc45473e81af256a68483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:37 +0000
Subject: [PATCH 35/39] fix: calculation fails if the log file cannot be opened

---
 vayesta/core/vlog.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vayesta/core/vlog.py b/vayesta/core/vlog.py
index 75dfedd..5139b7c 100644
--- a/vayesta/core/vlog.py
+++ b/vayesta/core/vlog.py
@@ -152,6 +152,13 @@ class VFileHandler(logging.FileHandler):
             formatter = VFormatter()
         self.setFormatter(formatter)
 
+    def emit(self, record):
+        # With delay=True, the file is opened here, which logging.FileHandler does not guard
+        try:
+            super().emit(record)
+        except Exception:
+            self.handleError(record)
+
 
 def get_logname(name, add_mpi_rank=True, ext="txt"):
     if mpi and add_mpi_rank:
-- 
2.43.0


From dcfe3903d3872b8ad5cc2767f0bb6af35b3e8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:53 +0000
Subject: [PATCH 36/39] fix: mean fields without stored integrals cannot be
 used, and user-defined integrals are lost

---
 vayesta/core/qemb/qemb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 74b01bb..571bf58 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -55,6 +55,7 @@ from vayesta.core.fragmentation import IAOPAO_Fragmentation
 from vayesta.core.fragmentation import Site_Fragmentation
 from vayesta.core.fragmentation import CAS_Fragmentation
 
+from vayesta.lattmod.latt import LatticeMole
 from vayesta.misc.cptbisect import ChempotBisection
 
 # Expectation values
@@ -342,6 +343,14 @@ class Embedding:
         # embedding method if attributes are replaced in their entirety
         # (eg. `mf.mo_coeff = mo_new` instead of `mf.mo_coeff[:] = mo_new`).
         mf = copy.copy(mf)
+        # PySCF leaves the integrals and the optimizer for direct SCF out of copies made with the copy module
+        # (the integrals of lattice models are always transformed by the lattice itself)
+        for key in ("_eri", "_opt"):
+            if key == "_eri" and isinstance(mf.mol, LatticeMole):
+                continue
+            if getattr(self._mf_orig, key, None) is not None:
+                value = getattr(self._mf_orig, key)
+                setattr(mf, key, value.copy() if isinstance(value, dict) else value)
         # The energy contributions are stored in this dictionary in-place (PySCF's energy_elec/energy_nuc)
         if getattr(mf, "scf_summary", None) is not None:
             mf.scf_summary = mf.scf_summary.copy()
-- 
2.43.0


From 6abea675a2b6c16263dc30cb5c0a9bd5c9486509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:16 +0000
Subject: [PATCH 37/39] fix: unrestricted CISD without enough memory raises an
 unrelated AttributeError

---
 vayesta/solver/_uccsd_eris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/_uccsd_eris.py b/vayesta/solver/_uccsd_eris.py
index 33d0d9b..c02bf57 100644
--- a/vayesta/solver/_uccsd_eris.py
+++ b/vayesta/solver/_uccsd_eris.py
@@ -35,7 +35,7 @@ def uao2mo(self, mo_coeff=None):
     mem_now = lib.current_memory()[0]
     if self._scf._eri is not None:
         assert np.ndim(self._scf._eri[0]) == 4
-        if mem_incore + mem_now < self.max_memory or self.incore_complete:
+        if mem_incore + mem_now < self.max_memory or getattr(self, "incore_complete", False):
             ao2mofn = (
                 lambda mo_coeff: ao2mo.restore(1, ao2mo.full(self._scf._eri[0], mo_coeff), mo_coeff.shape[1]),
                 lambda mo_coeff: ao2mo.general(self._scf._eri[1], mo_coeff),
-- 
2.43.0


From 5ea65c4593ce07a3996d3bd7612ab3b4d335a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:28 +0000
Subject: [PATCH 38/39] fix: new_log fails without error log

---
 vayesta/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/__init__.py b/vayesta/__init__.py
index f0c82e9..0e6d325 100644
--- a/vayesta/__init__.py
+++ b/vayesta/__init__.py
@@ -51,6 +51,7 @@ if args.log or not mpi.is_master:
     log.addHandler(vlog.VFileHandler(logname, formatter=fmt))
 # Error handler
 errlog = args.errlog
+errhandler = None
 if errlog:
     errfmt = vlog.VFormatter(show_mpi_rank=True, indent=False)
     if args.output_dir:
-- 
2.43.0


From 384852cc1c7a437784e8f5171ece61840a0b79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:07 +0000
Subject: [PATCH 39/39] fix: MP2 fragment energy wrong if occupied orbitals are
 processed in blocks

---
 vayesta/core/bath/bno.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/vayesta/core/bath/bno.py b/vayesta/core/bath/bno.py
index d46cb69..075b1a5 100644
--- a/vayesta/core/bath/bno.py
+++ b/vayesta/core/bath/bno.py
@@ -329,7 +329,8 @@ class MP2_BNO_Bath(BNO_Bath):
         if blksize is None:
             blksize = int(max_memory / max(nocc * nvir * nvir * 8, 1))
         nenv = nocc if self.occtype == "occupied" else nvir
-        ecorr = 0
+        # Projected amplitudes and integrals; these are sums over all blocks
+        tp = gp = 0
         for blk in brange(0, nocc, blksize):
             if eris is not None:
                 gijab = eris[blk].transpose(0, 2, 1, 3)
@@ -341,10 +342,10 @@ class MP2_BNO_Bath(BNO_Bath):
             t2blk = gijab / eijab
             if not energy_only:
                 t2[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[blk], gijab)
-            ecorr += 2 * einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)
+            tp = tp + einsum("ix,i...->x...", rfrag[blk], t2blk)
+            gp = gp + einsum("ix,i...->x...", rfrag[blk], gijab)
+        # Projected correlation energy:
+        ecorr = 2 * einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp) if nocc else 0
 
         return t2, ecorr
 
@@ -581,6 +582,8 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
         else:
             blksize_a = blksize
         ecorr = 0
+        # Projected amplitudes and integrals; these are sums over all blocks
+        tpaa = gpaa = tpab = gpab = 0
         for blk in brange(0, nocca, blksize_a):
             # Alpha-alpha
             if eris is not None:
@@ -594,10 +597,8 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
             t2blk -= t2blk.transpose(0, 1, 3, 2)
             if not energy_only:
                 t2aa[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[0][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[0][blk], gijab)
-            ecorr += (einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)) / 4
+            tpaa = tpaa + einsum("ix,i...->x...", rfrag[0][blk], t2blk)
+            gpaa = gpaa + einsum("ix,i...->x...", rfrag[0][blk], gijab)
             # Alpha-beta
             if eris is not None:
                 gijab = eris[1][blk].transpose(0, 2, 1, 3)
@@ -609,21 +610,24 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
             t2blk = gijab / eijab
             if not energy_only:
                 t2ab[blk] = t2blk
+            tpab = tpab + einsum("ix,i...->x...", rfrag[0][blk], t2blk)
+            gpab = gpab + einsum("ix,i...->x...", rfrag[0][blk], gijab)
             # Projected correlation energy:
-            # Alpha projected:
-            tp = einsum("ix,i...->x...", rfrag[0][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[0][blk], gijab)
-            ecorr += einsum("ijab,ijab->", tp, gp) / 2
             # Beta projected:
             tp = einsum("jx,ij...->ix...", rfrag[1], t2blk)
             gp = einsum("jx,ij...->ix...", rfrag[1], gijab)
             ecorr += einsum("ijab,ijab->", tp, gp) / 2
+        # Alpha projected:
+        if nocca:
+            ecorr += (einsum("ijab,ijab->", tpaa, gpaa) - einsum("ijab,ijba->", tpaa, gpaa)) / 4
+            ecorr += einsum("ijab,ijab->", tpab, gpab) / 2
 
         # Beta-beta:
         if blksize is None:
             blksize_b = int(max_memory / max(noccb * nvirb * nvirb * 8, 1))
         else:
             blksize_b = blksize
+        tpbb = gpbb = 0
         for blk in brange(0, noccb, blksize_b):
             if eris is not None:
                 gijab = eris[2][blk].transpose(0, 2, 1, 3)
@@ -636,10 +640,11 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
             t2blk -= t2blk.transpose(0, 1, 3, 2)
             if not energy_only:
                 t2bb[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[1][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[1][blk], gijab)
-            ecorr += (einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)) / 4
+            tpbb = tpbb + einsum("ix,i...->x...", rfrag[1][blk], t2blk)
+            gpbb = gpbb + einsum("ix,i...->x...", rfrag[1][blk], gijab)
+        # Projected correlation energy:
+        if noccb:
+            ecorr += (einsum("ijab,ijab->", tpbb, gpbb) - einsum("ijab,ijba->", tpbb, gpbb)) / 4
 
         return (t2aa, t2ab, t2bb), ecorr
 
-- 
2.43.0

