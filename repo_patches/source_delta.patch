From 7959eac0a8ca258203f9a81f38fc2927940af81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:59 +0000
Subject: [PATCH 01/12] fix: let a determinant excite an electron onto its own
 orbital

Moving an electron from an occupied orbital to the same orbital is the number
operator and returns the determinant with sign one. The check for an occupied
target came first, so this case was reported as impossible.
---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index e0b233a..8996c35 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -10,7 +10,7 @@ class Dstring(object):
     def excite(self, i, a):
         if self.occ[i] != 1:
             return (None, None)
-        if self.occ[a] != 0:
+        if i != a and self.occ[a] != 0:
             return (None, None)
 
         if i == a:
-- 
2.43.0


From 198f75173b5233554736828ada2cb945ae9f8484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:59 +0000
Subject: [PATCH 02/12] fix: generate quadruple excitations from occupied
 orbital indices

The two outer loops ran over the occupation numbers instead of the indices of
the occupied orbitals, so quadruples were missing, repeated or raised an error.
---
 cqcpy/ci_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 8996c35..50e25da 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -140,9 +140,9 @@ def q_strings(n, nocc, occ=None):
     ivir = [i for i, x in enumerate(vir) if x > 0]
     ref = Dstring(n, occ)
     dlist = []
-    for i in occ:
+    for i in iocc:
         for a in ivir:
-            for j in occ:
+            for j in iocc:
                 if j <= i:
                     continue
                 for b in ivir:
-- 
2.43.0


From ca64726b6b776a2eaba0fe483ee6d6c4d5ac9114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:59 +0000
Subject: [PATCH 03/12] fix: use the CI reference as default occupation in
 gmakeCfromT

The default occupation had half the number of spin orbitals, so calling the
function without an explicit occupation always failed an assertion.
---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 50e25da..3ee9b58 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -431,7 +431,7 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
         raise Exception("Higher than 4th order is not supported")
 
     if occ is None:
-        occ = [1 if i < no else 0 for i in range(nmo//2)]
+        occ = list(basis[0].occ)
     vir = [1 if x == 0 else 0 for x in occ]
     iocc = [i for i, x in enumerate(occ) if x > 0]
     ivir = [i for i, x in enumerate(vir) if x > 0]
-- 
2.43.0


From 1920b6ef7b0b511c9bd82d424b2cf072761f834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:59 +0000
Subject: [PATCH 04/12] fix: correct sign and constant of general CI matrix
 elements

Double differences whose two moves do not overlap had the opposite sign, unlike
the spin-resolved function. The constant was ignored on the diagonal.
---
 cqcpy/ci_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 3ee9b58..4ee380d 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1279,7 +1279,7 @@ def gci_matrixel(bra, ket, h, I, const):
         Hel = numpy.einsum('ii,i->', h, p)
         Hel += 0.5*numpy.einsum('ijij,i,j->', I, p, p)
         Hel -= 0.5*numpy.einsum('ijji,i,j->', I, p, p)
-        return Hel
+        return Hel + const
     elif ddd == 1:
         o = numpy.nonzero(ao)[0][0]
         v = numpy.nonzero(av)[0][0]
@@ -1305,7 +1305,8 @@ def gci_matrixel(bra, ket, h, I, const):
         sign2 = 1.0 if b[j1 + 1:j2].sum() % 2 == 0 else -1.0
         # from Ha
         Hel = I[v1, v2, o1, o2] - I[v1, v2, o2, o1]
-        return sign1*sign2*Hel
+        sign = -sign1*sign2 if (v2 < o1 or o2 < v1) else sign1*sign2
+        return sign*Hel
     else:
         return 0.0
 
-- 
2.43.0


From 995310a0490a5fffcc0b9440c5b93c1eb0595015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:40 +0000
Subject: [PATCH 05/12] fix: use the second coefficient matrix in get_chem_anti

The antisymmetrised chemist's integrals transformed the second index
with the coefficients of the first one.
---
 cqcpy/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c115f61..c2b7918 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -22,7 +22,7 @@ def get_chem(mol, o1, o2, o3, o4, anti=False):
 def get_chem_anti(mol, o1, o2, o3, o4):
     """Get antisymmetrized ERIs in chemist's notation for given
     orbital Coeffs."""
-    return get_chem(mol, o1, o1, o3, o4, anti=True)
+    return get_chem(mol, o1, o2, o3, o4, anti=True)
 
 
 def get_phys(mol, o1, o2, o3, o4, anti=False):
-- 
2.43.0


From 2d1c8b59d15166f2c44ed440550d64a5913f63d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:20 +0000
Subject: [PATCH 06/12] fix: apply the scale argument in the Stanton Lambda
 kernel

The kernel accepted a scale but added its contribution unscaled.
---
 cqcpy/cc_equations.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/cqcpy/cc_equations.py b/cqcpy/cc_equations.py
index 5d6ed1e..91dafb9 100644
--- a/cqcpy/cc_equations.py
+++ b/cqcpy/cc_equations.py
@@ -1161,31 +1161,32 @@ def _Lambda_Stanton(L1, L2, F, I, L1old, L2old, T1old, T2old, fac=1.0):
     Gvv = -0.5*einsum('mnaf,efmn->ae', L2old, T2old)
     Goo = 0.5*einsum('inef,efmn->mi', L2old, T2old)
 
-    L1 += einsum('ie,ea->ia', L1old, F1vv)
-    L1 -= einsum('ma,im->ia', L1old, F1oo)
-    L1 += einsum('me,ieam->ia', L1old, W1ovvo)
-    L1 += 0.5*einsum('imef,efam->ia', L2old, W1vvvo)
-    L1 -= 0.5*einsum('mnae,iemn->ia', L2old, W1ovoo)
-    L1 -= einsum('ef,eifa->ia', Gvv, W1vovv)
-    L1 -= einsum('mn,mina->ia', Goo, W1ooov)
+    L1 += fac*einsum('ie,ea->ia', L1old, F1vv)
+    L1 -= fac*einsum('ma,im->ia', L1old, F1oo)
+    L1 += fac*einsum('me,ieam->ia', L1old, W1ovvo)
+    L1 += fac*0.5*einsum('imef,efam->ia', L2old, W1vvvo)
+    L1 -= fac*0.5*einsum('mnae,iemn->ia', L2old, W1ovoo)
+    L1 -= fac*einsum('ef,eifa->ia', Gvv, W1vovv)
+    L1 -= fac*einsum('mn,mina->ia', Goo, W1ooov)
 
-    L2 += 0.5*einsum('mnab,ijmn->ijab', L2old, W1oooo)
-    L2 += 0.5*einsum('ijef,efab->ijab', L2old, W1vvvv)
+    L2 += fac*0.5*einsum('mnab,ijmn->ijab', L2old, W1oooo)
+    L2 += fac*0.5*einsum('ijef,efab->ijab', L2old, W1vvvv)
 
     tempijab = einsum('ia,jb->ijab', L1old, F1ov)
     tempijab += einsum('imae,jebm->ijab', L2old, W1ovvo)
-    L2 += tempijab - tempijab.transpose((0, 1, 3, 2)) \
-        - tempijab.transpose((1, 0, 2, 3)) + tempijab.transpose((1, 0, 3, 2))
+    L2 += fac*(tempijab - tempijab.transpose((0, 1, 3, 2))
+               - tempijab.transpose((1, 0, 2, 3))
+               + tempijab.transpose((1, 0, 3, 2)))
 
     tempij = -einsum('imab,jm->ijab', L2old, F1oo)
     tempij += einsum('ie,ejab->ijab', L1old, W1vovv)
     tempij -= einsum('imab,mj->ijab', I.oovv, Goo)
-    L2 += tempij - tempij.transpose((1, 0, 2, 3))
+    L2 += fac*(tempij - tempij.transpose((1, 0, 2, 3)))
 
     tempab = einsum('ijae,eb->ijab', L2old, F1vv)
     tempab -= einsum('ma,ijmb->ijab', L1old, W1ooov)
     tempab += einsum('ijae,be->ijab', I.oovv, Gvv)
-    L2 += tempab - tempab.transpose((0, 1, 3, 2))
+    L2 += fac*(tempab - tempab.transpose((0, 1, 3, 2)))
 
 
 def _Lambda_opt(L1, L2, F, I, L1old, L2old, T1old, T2old, fac=1.0):
-- 
2.43.0


From a78b273cbcb060b62b415eec9a29be5aad5b3883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:21 +0000
Subject: [PATCH 07/12] fix: keep complex values when assembling spin-orbital
 tensors

The assembled arrays were always real, so imaginary parts were dropped.
---
 cqcpy/spin_utils.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cqcpy/spin_utils.py b/cqcpy/spin_utils.py
index 1fe7504..ae95906 100644
--- a/cqcpy/spin_utils.py
+++ b/cqcpy/spin_utils.py
@@ -7,19 +7,23 @@ from cqcpy.ov_blocks import two_e_blocks_full
 def F_to_spin(Faa, Fbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    Foo = numpy.zeros((no, no))
+    dtype = numpy.result_type(float, Faa.oo, Fbb.oo)
+    Foo = numpy.zeros((no, no), dtype=dtype)
     Foo[:noa, :noa] = Faa.oo
     Foo[noa:, noa:] = Fbb.oo
 
-    Fov = numpy.zeros((no, nv))
+    dtype = numpy.result_type(float, Faa.ov, Fbb.ov)
+    Fov = numpy.zeros((no, nv), dtype=dtype)
     Fov[:noa, :nva] = Faa.ov
     Fov[noa:, nva:] = Fbb.ov
 
-    Fvo = numpy.zeros((nv, no))
+    dtype = numpy.result_type(float, Faa.vo, Fbb.vo)
+    Fvo = numpy.zeros((nv, no), dtype=dtype)
     Fvo[:nva, :noa] = Faa.vo
     Fvo[nva:, noa:] = Fbb.vo
 
-    Fvv = numpy.zeros((nv, nv))
+    dtype = numpy.result_type(float, Faa.vv, Fbb.vv)
+    Fvv = numpy.zeros((nv, nv), dtype=dtype)
     Fvv[:nva, :nva] = Faa.vv
     Fvv[nva:, nva:] = Fbb.vv
 
@@ -48,7 +52,7 @@ def F_to_spatial(F, noa, nva, nob, nvb):
 def T1_to_spin(Ta, Tb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, no))
+    T = numpy.zeros((nv, no), dtype=numpy.result_type(float, Ta, Tb))
     T[:nva, :noa] = Ta.copy()
     T[nva:, noa:] = Tb.copy()
     return T
@@ -87,7 +91,8 @@ def T1_to_spatial(T, noa, nva, nob, nvb):
 def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, nv, no, no))
+    dtype = numpy.result_type(float, Taa, Tab, Tbb)
+    T = numpy.zeros((nv, nv, no, no), dtype=dtype)
     T[:nva, :nva, :noa, :noa] = Taa.copy()  # aaaa
     T[nva:, nva:, noa:, noa:] = Tbb.copy()  # bbbb
     T[:nva, nva:, :noa, noa:] = Tab.copy()  # abab
@@ -100,7 +105,8 @@ def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
 def D2_to_spin(Daa, Dab, Dbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    D = numpy.zeros((nv, nv, no, no))
+    dtype = numpy.result_type(float, Daa, Dab, Dbb)
+    D = numpy.zeros((nv, nv, no, no), dtype=dtype)
     D[:nva, :nva, :noa, :noa] = Daa.copy()  # aaaa
     D[nva:, nva:, noa:, noa:] = Dbb.copy()  # bbbb
     D[:nva, nva:, :noa, noa:] = Dab.copy()  # abab
@@ -123,7 +129,8 @@ def int_to_spin_block(aaaa, bbbb, abab, baba, abba, baab,
     n2 = na2 + nb2
     n3 = na3 + nb3
     n4 = na4 + nb4
-    I = numpy.zeros((n1, n2, n3, n4))
+    dtype = numpy.result_type(float, aaaa, bbbb, abab, baba, abba, baab)
+    I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:na1, :na2, :na3, :na4] = aaaa  # aaaa
     I[na1:, na2:, na3:, na4:] = bbbb  # bbbb
     I[:na1, na2:, :na3, na4:] = abab  # abab
-- 
2.43.0


From 6d5645bcec21e314b81d66425cc06aaee180d703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:21 +0000
Subject: [PATCH 08/12] fix: keep complex values in CI vectors

Results of operators on CI vectors and CI coefficients made from amplitudes
were always real, so imaginary parts were dropped.
---
 cqcpy/ci_utils.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 4ee380d..8040e82 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -438,7 +438,7 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
     ref = Dstring(nmo, occ)
 
     nd = len(basis)
-    C = numpy.zeros(nd)
+    C = numpy.zeros(nd, dtype=numpy.result_type(float, T1, T2))
     C[0] = 1.0
     # loop over T1
     for ii, i in enumerate(iocc):
@@ -619,7 +619,8 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
     refa = Dstring(na, occa)
     refb = Dstring(nb, occb)
     nd = len(basis)
-    C = numpy.zeros(nd)
+    dtype = numpy.result_type(float, T1a, T1b, T2aa, T2ab, T2bb)
+    C = numpy.zeros(nd, dtype=dtype)
     C[0] = 1.0
 
     # loop over T1a
@@ -1427,7 +1428,7 @@ def ci_matrixel(braa, brab, keta, ketb, ha, hb, Ia, Ib, Iabab, const):
 
 
 def s_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         dd = basis[ix]
         s, new = dd.excite(i, a)
@@ -1442,7 +1443,7 @@ def s_on_vec(basis, vec, i, a):
 
 
 def sa_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sa, anew = ab.excite(i, a)
@@ -1457,7 +1458,7 @@ def sa_on_vec(basis, vec, i, a):
 
 
 def sb_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sb, bnew = bb.excite(i, a)
@@ -1472,7 +1473,7 @@ def sb_on_vec(basis, vec, i, a):
 
 
 def d_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         dd = basis[ix]
         s1, temp = dd.excite(i, a)
@@ -1490,7 +1491,7 @@ def d_on_vec(basis, vec, i, j, a, b):
 
 
 def da_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         s1, atemp = ab.excite(i, a)
@@ -1508,7 +1509,7 @@ def da_on_vec(basis, vec, i, j, a, b):
 
 
 def db_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         s1, btemp = bb.excite(i, a)
@@ -1526,7 +1527,7 @@ def db_on_vec(basis, vec, i, j, a, b):
 
 
 def sasb_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sa, anew = ab.excite(i, a)
@@ -1544,7 +1545,8 @@ def sasb_on_vec(basis, vec, i, j, a, b):
 
 
 def H_on_vec(basis, vec, ha, hb, Ia, Ib, Iabab):
-    out = numpy.zeros(vec.shape)
+    dtype = numpy.result_type(float, vec, ha, hb, Ia, Ib, Iabab)
+    out = numpy.zeros(vec.shape, dtype=dtype)
     for i, b in enumerate(basis):
         for j, k in enumerate(basis):
             out[i] += vec[j]*ci_matrixel(
@@ -1553,7 +1555,7 @@ def H_on_vec(basis, vec, ha, hb, Ia, Ib, Iabab):
 
 
 def gH_on_vec(basis, vec, h, I,):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(float, vec, h, I))
     for i, b in enumerate(basis):
         for j, k in enumerate(basis):
             out[i] += vec[j]*gci_matrixel(b, k, h, I, 0.0)
-- 
2.43.0


From 1103669d23b91996f6517a901a4bcf9da4f9a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:21 +0000
Subject: [PATCH 09/12] fix: choose the type of unrestricted integrals from
 their blocks

The type came from one coefficient matrix, so imaginary parts of the other
blocks were dropped.
---
 cqcpy/integrals.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c2b7918..9bec001 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -40,7 +40,6 @@ def get_chemu(mol, o1, o2, o3, o4, p1, p2, p3, p4, anti=False):
     """Get unrestricted, ERIs in chemist's
     notation for given alphd and beta orbital Coeffs.
     """
-    dtype = o1.dtype
     Ia = get_chem(mol, o1, o2, o3, o4, anti=anti)
     Ib = get_chem(mol, p1, p2, p3, p4, anti=anti)
     Iaabb = get_chem(mol, o1, o2, p3, p4)
@@ -57,6 +56,7 @@ def get_chemu(mol, o1, o2, o3, o4, p1, p2, p3, p4, anti=False):
     n2 = a2 + b2
     n3 = a3 + b3
     n4 = a4 + b4
+    dtype = numpy.result_type(Ia, Ib, Iaabb, Ibbaa)
     I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:a1, :a2, :a3, :a4] = Ia
     I[a1:, a2:, a3:, a4:] = Ib
@@ -90,7 +90,7 @@ def get_chemu_all(mol, oa, ob, anti=False):
         mol, (ob, ob, ob, ob), compact=False).reshape(nb, nb, nb, nb)
     Iab = mol_ao2mo.general(
         mol, (oa, oa, ob, ob), compact=False).reshape(na, na, nb, nb)
-    dtype = oa.dtype
+    dtype = numpy.result_type(Ia, Ib, Iab)
     Id = numpy.zeros((n, n, n, n), dtype=dtype)
     Id[:na, :na, :na, :na] = Ia
     Id[na:, na:, na:, na:] = Ib
@@ -249,7 +249,7 @@ def get_chemu_sol(mf, o1, o2, o3, o4, p1, p2, p3, p4, anti=False):
     n2 = a2 + b2
     n3 = a3 + b3
     n4 = a4 + b4
-    dtype = o1.dtype
+    dtype = numpy.result_type(Ia, Ib, Iaabb, Ibbaa)
     I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:a1, :a2, :a3, :a4] = Ia
     I[a1:, a2:, a3:, a4:] = Ib
@@ -288,7 +288,8 @@ def get_chemu_all_sol(mf, oa, ob, anti=False):
         (ob, ob, ob, ob), mf.kpt, compact=False).reshape(nb, nb, nb, nb)
     Iab = mf.with_df.ao2mo(
         (oa, oa, ob, ob), mf.kpt, compact=False).reshape(na, na, nb, nb)
-    Id = numpy.zeros((n, n, n, n), dtype=oa.dtype)
+    dtype = numpy.result_type(Ia, Ib, Iab)
+    Id = numpy.zeros((n, n, n, n), dtype=dtype)
     Id[:na, :na, :na, :na] = Ia
     Id[na:, na:, na:, na:] = Ib
     Id[:na, :na, na:, na:] = Iab
-- 
2.43.0


From 20edf5a030f4cf26b1472aa1bdb1db5d608af72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:21 +0000
Subject: [PATCH 10/12] fix: do not drop the imaginary part of the Fock matrix
 in CCD

With complex Fock matrix and real integrals the update silently lost the
imaginary part. It now raises an error, as the CCSD update does.
---
 cqcpy/cc_equations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cqcpy/cc_equations.py b/cqcpy/cc_equations.py
index 91dafb9..ae51e5b 100644
--- a/cqcpy/cc_equations.py
+++ b/cqcpy/cc_equations.py
@@ -263,10 +263,10 @@ def _Stanton(T1, T2, F, I, T1old, T2old, fac=1.0):
 
 
 def _Stanton_ccd(T2, F, I, T2old, fac=1.0):
-    Fvv = F.vv.astype(T2.dtype)
+    Fvv = F.vv.astype(numpy.result_type(F.vv, T2))
     Fvv -= 0.5*einsum('jkbc,acjk->ab', I.oovv, T2old)
 
-    Foo = F.oo.astype(T2.dtype)
+    Foo = F.oo.astype(numpy.result_type(F.oo, T2))
     Foo += 0.5*einsum('jkbc,bcik->ji', I.oovv, T2old)
 
     Woooo = I.oooo.astype(T2.dtype)
-- 
2.43.0


From 2e9ec823735b368f37b1a4003f2698b726944495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:00 +0000
Subject: [PATCH 11/12] fix: add the missing beta-singles squared times
 alpha-doubles term in makeCfromT

The fourth-order expansion left out this product, so quadruple coefficients with two
excitations of each spin were wrong.
---
 cqcpy/ci_utils.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 8040e82..b8d9206 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1118,6 +1118,28 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
                                         if bstr is not None and astr is not None:
                                             idx = basis.index((astr, bstr))
                                             C[idx] += sa*s1*s2*s3*T1a[a, i]*T1b[b, j]*T2bb[c, d, k, l]
+        # loop over T1b^2*T2aa
+        for i in range(nob):
+            for j in range(nob):
+                for k in range(noa):
+                    for l in range(k+1, noa):
+                        for a in range(nvb):
+                            for b in range(nvb):
+                                for c in range(nva):
+                                    for d in range(c+1, nva):
+                                        sb1, bstr = refb.excite(i, a + nob)
+                                        if bstr is None:
+                                            continue
+                                        sb2, bstr = bstr.excite(j, b + nob)
+                                        if bstr is None:
+                                            continue
+                                        sa1, astr = refa.excite(k, c + noa)
+                                        if astr is None:
+                                            continue
+                                        sa2, astr = astr.excite(l, d + noa)
+                                        if bstr is not None and astr is not None:
+                                            idx = basis.index((astr, bstr))
+                                            C[idx] += sa1*sa2*sb1*sb2*T1b[a, i]*T1b[b, j]*T2aa[c, d, k, l]/2.0
         # loop over T1b^2*T2ab
         for i in range(nob):
             for j in range(nob):
-- 
2.43.0


From 29c024691af865a89d133911f4085dffee710cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:25:15 +0000
Subject: [PATCH 12/12] fix: give a determinant excited onto its own orbital
 its own occupations

---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index b8d9206..9d40809 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -14,7 +14,7 @@ class Dstring(object):
             return (None, None)
 
         if i == a:
-            return (1.0, Dstring(self.n, self.occ))
+            return (1.0, Dstring(self.n, self.occ.copy()))
         elif i < a:
             occnew = self.occ.copy()
             occnew[i] = 0
-- 
2.43.0

