From 231fda9fa73e8d7f8b3ff8efee99818ca392d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 01/45] fix: index VASP plane waves with the full extent of the
 G-vector range

The grid size used to order plane waves was max-min instead of max-min+1,
so G-vectors at +max and -min along an axis collided and the coefficients
read from WAVECAR were assigned to the wrong plane waves.
---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 85bf2b4..bc665d1 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -148,7 +148,7 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0)
+    ng = igall.max(axis=0) - igall.min(axis=0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From 5cffb0e98d1a26a60a1559e22bab73a56a057e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 02/45] fix: determine signs of spinor rotations from the
 cell's frame instead of a random search

---
 irrep/spacegroup.py | 96 +++++++++++++--------------------------------
 1 file changed, 28 insertions(+), 68 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index cf9830d..634eda3 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -22,7 +22,7 @@ from math import pi
 from scipy.linalg import expm
 import spglib
 from irreptables import IrrepTable
-from scipy.optimize import minimize
+from scipy.spatial.transform import Rotation
 from .utility import str_, log_message, BOHR
 from packaging import version
 
@@ -861,7 +861,7 @@ class SpaceGroup():
                     self.shiftUC) for s in self.symmetries) +
             "\n\n")
 
-    def __match_spinor_rotations(self, S1, S2):
+    def __match_spinor_rotations(self, S1, S2, refUC):
         """
         Determine the sign difference between matrices describing the 
         transformation of spinors found by `spglib` and those read from tables.
@@ -874,80 +874,40 @@ class SpaceGroup():
         S2 : list
             Contains the matrices for the transformation of spinors 
             corresponding to symmetry operations read from tables.
+        refUC : array
+            3x3 array describing the transformation of vectors defining the 
+            unit cell to the standard setting.
 
         Returns
         -------
         array
             The `j`-th element is the matrix to match the `j`-th matrices of 
             `S1` and `S2`.
+
+        Notes
+        -----
+        Matrices in the tables are written in a cartesian frame attached to 
+        the reference cell: the first vector along x and the second one in 
+        the xy plane, except for trigonal and hexagonal groups, where the 
+        first vector is along -y and the third one along -z.
         """
-        n = 2
-
-        def RR(x): 
-            """
-            Constructs a 2x2 complex matrix out of a list containing real and 
-            imaginary parts.
-
-            Parameters
-            ----------
-            x : list, length=8
-                Length is 8. `x[:4]` contains the real parts, `x[4:]` the 
-                imaginary parts.
-            
-            Returns
-            -------
-            array, shape=(2,2)
-                Matrix of complex elements. 
-            """
-
-            return np.array([[x1 + 1j * x2 for x1, x2 in zip(l1, l2)] for l1, l2 in zip(x[:n * n].reshape((n, n)), x[n * n:].reshape((n, n)))])
-
-        def residue_matrix(r): 
-            """
-            Calculate the residue of a matrix.
-
-            Parameters
-            ----------
-            r : array
-                Matrix used as ansatz for the minimization.
-
-            Returns
-            -------
-            float            
-            """
-
-            return sum([min(abs(r.dot(b).dot(r.T.conj()) - s * a).sum() for s in (1, -1)) for a, b in zip(S1, S2)])
-
-        def residue(x): 
-            """
-            Calculate the normalized residue.
-
-            Parameters
-            ----------
-            x : list, length=8
-                Length is 8. `x[:4]` contains the real parts, `x[4:]` the 
-                imaginary parts.
-            
-            Returns
-            -------
-            float
-            """
-            return residue_matrix(RR(x)) / len(S1)
-
-        for i in range(11):
-            x0 = np.random.random(2 * n * n)
-            res = minimize(residue, x0)
-            r = res.fun
-            if r < 1e-4:
-                break
-        if r > 1e-3:
-            raise RuntimeError(
-                "the accurcy is only {0}. Is this good?".format(r))
 
-        R1 = RR(res.x)
+        # Cartesian frame attached to the reference cell, one axis per column
+        frame, tri = np.linalg.qr(refUC.T.dot(self.Lattice).T)
+        frame = frame * np.sign(np.diag(tri))
 
-        return np.array([R1.dot(b).dot(R1.T.conj()).dot(np.linalg.inv(
-            a)).diagonal().mean().real.round() for a, b in zip(S1, S2)], dtype=int)
+        hexagonal = np.array([[0, -1, 0], [-1, 0, 0], [0, 0, -1]])
+        for Q in frame, frame.dot(hexagonal):
+            q = Rotation.from_matrix(Q * np.linalg.det(Q)).as_quat()
+            R1 = q[3] * np.eye(2) - 1j * np.einsum('i,ijk->jk', q[:3], pauli_sigma)
+            signs = np.array([R1.dot(b).dot(R1.T.conj()).dot(np.linalg.inv(
+                a)).diagonal().mean() for a, b in zip(S1, S2)])
+            r = abs(abs(signs.real) - 1).max()
+            if r < 1e-3:
+                return np.array(signs.real.round(), dtype=int)
+
+        raise RuntimeError(
+            "the accurcy is only {0}. Is this good?".format(r))
 
     def get_irreps_from_table(self, kpname, K, v=0):
         """
@@ -1282,7 +1242,7 @@ class SpaceGroup():
         if signs:
             S1 = [sym.spinor_rotation for sym in self.symmetries]
             S2 = [self.symmetries_tables[i].S for i in ind]
-            signs_array = self.__match_spinor_rotations(S1, S2)
+            signs_array = self.__match_spinor_rotations(S1, S2, refUC)
         else:
             signs_array = np.ones(len(ind), dtype=int)
         return ind, dt, signs_array
-- 
2.43.0


From 7d85c1ff567801b56f3997ffba4fbae19faa536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 03/45] fix: apply POSCAR's scaling factor to cartesian
 positions and support it being a volume

VASP multiplies both lattice vectors and cartesian positions by the universal
scaling factor; a negative one gives the volume of the cell.
---
 irrep/readfiles.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 5682ee6..8153e5a 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -421,8 +421,11 @@ class ParserVasp:
         fpos = (l.strip() for l in open(self.fPOS))
         title = next(fpos)  # title
         del title
-        lattice = float(
-            next(fpos)) * np.array([next(fpos).split() for i in range(3)], dtype=float)
+        scale = float(next(fpos))
+        lattice = np.array([next(fpos).split() for i in range(3)], dtype=float)
+        if scale < 0:  # VASP: minus the volume of the cell
+            scale = (-scale / abs(np.linalg.det(lattice))) ** (1.0 / 3)
+        lattice *= scale
         try:
             nat = np.array(next(fpos).split(), dtype=int)
         except BaseException:
@@ -455,7 +458,8 @@ class ParserVasp:
                 "not all atomic positions were read : {0} of {1}".format(
                     i, sum(nat)))
         if cartesian:
-            positions = positions.dot(np.linalg.inv(lattice))
+            # the universal scaling factor applies also to cartesian positions
+            positions = scale * positions.dot(np.linalg.inv(lattice))
         return lattice, positions, typat
 
     def parse_header(self):
-- 
2.43.0


From 5c664c8fd8c78831f8a27a67dd29b2642eb43d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 04/45] fix: skip unreadable lines among POSCAR's positions
 instead of failing with a TypeError

---
 irrep/readfiles.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 8153e5a..b6196a7 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -451,8 +451,7 @@ class ParserVasp:
                 positions[i] = np.array(l.split()[:3])
                 i += 1
             except Exception as err:
-                log_message(err, msg, 1)
-                pass
+                log_message(err, v, 1)
         if sum(nat) != i:
             raise RuntimeError(
                 "not all atomic positions were read : {0} of {1}".format(
-- 
2.43.0


From a3cb4f0f697804c11f2b08cf71be7b187323bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 05/45] fix: report a plane wave without symmetric partner with
 the intended error

A misplaced parenthesis added a string to an array, so that the user got an
unrelated ufunc TypeError.
---
 irrep/gvectors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index bc665d1..78f6b69 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -304,11 +304,10 @@ def transformed_g(kpt, ig, RecLattice, A):
                     "Not pair found for the g-vector igTr[{i}]={igtr}"
                     .format(i=i, igtr=igTr[:,i]) +
                     "obtained when transforming the g-vector ig[{i}]={ig} "
-                    .format(i=i, ig=ig[:3,i] +
+                    .format(i=i, ig=ig[:3,i]) +
                     "with the matrix {B}, where B=inv(A).T with A={A}"
                     .format(B=B, A=A)
                 )
-            )
     return rotind
 
 
-- 
2.43.0


From 29f303b8c7bf0346c190d2da13f74f54ecd75832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 06/45] fix: order VASP plane waves also when all G-vectors
 have the same sign along an axis

For k points far from the first Brillouin zone the range of G-vectors may not
contain 0; the modulo then moved the largest one to the front.
---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 78f6b69..019bd7a 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -148,7 +148,7 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0) + 1
+    ng = np.maximum(igall.max(axis=0), 0) - np.minimum(igall.min(axis=0), 0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From 309cb3141f3a205c0121135de76cfb5d12d5dacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 07/45] fix: accept k points that match the table's up to the
 table's decimals

Comparing values rounded to 5 decimals with isclose refused the correct point
when the cell transformation multiplies the rounding of the tables (e.g.
0.66666 against 0.66667) or when it straddles an integer (0.99999 against 0).
---
 irrep/spacegroup.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 634eda3..5982879 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -951,9 +951,10 @@ class SpaceGroup():
         tab = {}
         for irr in table.irreps:
             if irr.kpname == kpname:
-                k1 = np.round(np.linalg.inv(self.refUC.T).dot(irr.k), 5) % 1
-                k2 = np.round(K, 5) % 1
-                if not all(np.isclose(k1, k2)):
+                k1 = np.linalg.inv(self.refUC.T).dot(irr.k)
+                dk = k1 - K
+                # tables have a finite number of decimals
+                if not np.allclose(dk, np.round(dk), rtol=0, atol=1e-4):
                     raise RuntimeError(
                         "the kpoint {0} does not correspond to the point {1} ({2} in refUC / {3} in primUC) in the table".format(
                             K,
@@ -961,7 +962,7 @@ class SpaceGroup():
                             np.round(
                                 irr.k,
                                 3),
-                            k1))
+                            np.round(k1, 5) % 1))
                 tab[irr.name] = {}
                 for i,(sym1,sym2) in enumerate(zip(self.symmetries,table.symmetries)):
                     try:
-- 
2.43.0


From db4c94d781209b71d744a04c461d0359e0330509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 08/45] fix: read ABINIT's WFK files of crystals with one atom

The type of the only atom was read as a scalar, which spglib does not accept.
---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index b6196a7..2f444a2 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -236,7 +236,7 @@ class ParserAbinit():
                     ntypat=ntypat)
                )
         record = record_abinit(self.fWFK, fmt)[0]
-        typat = record[6]
+        typat = np.atleast_1d(record[6])  # a scalar if there is only one atom
         kpt = record[7]
         nband = record[1]
         istwfk = record[0]
-- 
2.43.0


From 4f373f84bdd143a74d9f6effbc9eefe8627716f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 09/45] fix: read any list of k points from ABINIT's WFK file

Skipping k points compared their blocks with the header of the wanted one and
skipped one record of coefficients instead of one per band, and lists that are
not in increasing order continued from the last position.
---
 irrep/readfiles.py | 70 ++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 40 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 2f444a2..55dba18 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -124,7 +124,6 @@ class ParserAbinit():
     def __init__(self, filename):
         #fWFK = FF(fname, "r")
         self.fWFK = FFR(filename)  # temporary
-        self.kpt_count = 0  # index of the next k-point to be read
 
     def parse_header(self, v=0):
         '''
@@ -293,6 +292,7 @@ class ParserAbinit():
         if usepaw == 1:
             record_abinit(self.fWFK,"i4")
             record_abinit(self.fWFK,"i4")
+        self.header_records = 5 + npsp + (2 if usepaw == 1 else 0)
 
         # Set as attributes quantities that need to be retrieved by the rest of methods
         self.nband = nband
@@ -319,46 +319,36 @@ class ParserAbinit():
 
         nspinor = 2 if self.spinor else 1
 
-        # We need to skip lines in fWFK until we reach the lines of ik
-        for i in range(self.kpt_count, ik+1):
-
-            if self.kpt_count < ik:
-                skip = True
-            else:
-                skip = False
-
-            # 1st record: npw, nspinor, nband
-            record = record_abinit(self.fWFK, "i4")  # [0]
-            npw, nspinor_loc, nband = record
-            assert npw == self.npwarr[ik], ("Different number of plane waves "
-                                            "in header and k-point's block. "
-                                            "Probably a bug in Abinit...")
-            assert nspinor_loc == nspinor, ("Different values of nspinor in "
-                                            "header and k-point's block. "
-                                            "Probably a bug in Abinit...")
-            assert nband == self.nband[ik], ("Different number of bands in "
-                                             "header and k-point's block. "
-                                             "Probably a bug in Abinit...")
-
-            # 2nd record: reciprocal lattice vectors in the expansion
-            kg = record_abinit(self.fWFK, "i4").reshape(npw, 3)
-
-            # 3rd record: energies and occupations
+        # Records of each k-point: 3 + one per band. Skip the previous k-points
+        nskip = sum(3 + int(nband) for nband in self.nband[:ik])
+        self.fWFK.goto_record(self.header_records + nskip)
+
+        # 1st record: npw, nspinor, nband
+        record = record_abinit(self.fWFK, "i4")  # [0]
+        npw, nspinor_loc, nband = record
+        assert npw == self.npwarr[ik], ("Different number of plane waves "
+                                        "in header and k-point's block. "
+                                        "Probably a bug in Abinit...")
+        assert nspinor_loc == nspinor, ("Different values of nspinor in "
+                                        "header and k-point's block. "
+                                        "Probably a bug in Abinit...")
+        assert nband == self.nband[ik], ("Different number of bands in "
+                                         "header and k-point's block. "
+                                         "Probably a bug in Abinit...")
+
+        # 2nd record: reciprocal lattice vectors in the expansion
+        kg = record_abinit(self.fWFK, "i4").reshape(npw, 3)
+
+        # 3rd record: energies and occupations
+        record = record_abinit(self.fWFK, "f8")
+        eigen = record[:nband]
+        eigen *= Hartree_eV
+
+        # 4th record: coefficients of expansions in plane waves
+        CG = np.zeros((nband, npw * nspinor), dtype=complex)
+        for iband in range(nband):
             record = record_abinit(self.fWFK, "f8")
-            if not skip:
-                eigen = record[:nband]
-                eigen *= Hartree_eV
-
-            # 4th record: coefficients of expansions in plane waves
-            if skip:
-                record = record_abinit(self.fWFK, "f8")
-            else:
-                CG = np.zeros((nband, npw * nspinor), dtype=complex)
-                for iband in range(nband):
-                    record = record_abinit(self.fWFK, "f8")
-                    CG[iband] = record[0::2] + 1.0j * record[1::2]
-
-            self.kpt_count += 1
+            CG[iband] = record[0::2] + 1.0j * record[1::2]
 
         return CG, eigen, kg
 
-- 
2.43.0


From cc38e78802c4942fce149c96b18f423c1ec61578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 10/45] fix: use the Bohr radius to apply the cutoff to Quantum
 ESPRESSO's plane waves

The reciprocal lattice in 1/Angstrom was converted with a factor 1/2 instead
of 0.529, so Ecut selected plane waves up to a 12% larger energy.
---
 irrep/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 7ba4f8b..02450d6 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -26,7 +26,7 @@ from .readfiles import ParserAbinit, ParserVasp, ParserEspresso, ParserW90
 from .kpoint import Kpoint
 from .spacegroup import SpaceGroup
 from .gvectors import sortIG, calc_gvectors
-from .utility import log_message
+from .utility import BOHR, log_message
 
 
 class BandStructure:
@@ -341,7 +341,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
                 log_message(msg, v, 2)
                 WF, Energy, kg, kpt = parser.parse_kpoint(ik, NBin, spin_channel, v=v)
-                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice/2.0, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'wannier90':
                 kpt = kpred[ik]
-- 
2.43.0


From 3775f76f32da377c5ee73743ea901db66996d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 11/45] fix: take the energies of the selected spin channel of
 Quantum ESPRESSO

The list of eigenvalues holds the up levels followed by the down ones: the down
channel was given the energies of the up one, and the up channel's last band a
gap to the lowest down level.
---
 irrep/readfiles.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 55dba18..0d8b7fb 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -685,6 +685,11 @@ class ParserEspresso:
         # Parse energy levels
         Energy = np.array(kptxml.find("eigenvalues").text.split(), dtype=float)
         Energy *= Hartree_eV
+        # In spin-polarized calculations the levels of both channels are listed
+        if spin_channel == "up":
+            Energy = Energy[:NBin]
+        elif spin_channel == "dw":
+            Energy = Energy[-NBin:]
 
         # Open file with the wave functions
         wfcname="wfc{}{}".format({None:"","dw":"dw","up":"up"}[spin_channel], ik+1)
-- 
2.43.0


From de471b0e6323062e4315ac172ab3269e1e935ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:01 +0000
Subject: [PATCH 12/45] fix: ignore comments that follow a value in Wannier90's
 .win file

---
 irrep/readfiles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 0d8b7fb..9877735 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -758,11 +758,13 @@ class ParserW90:
     def __init__(self, prefix):
 
         self.prefix = prefix
-        self.fwin = [l.strip().lower() for l in open(prefix + ".win").readlines()]
+        # remove comments, also those after the value of a parameter
+        self.fwin = [l.replace("#", "!").split("!")[0].strip().lower()
+                     for l in open(prefix + ".win").readlines()]
         self.fwin = [
             [s.strip() for s in split(l)]
             for l in self.fwin
-            if len(l) > 0 and l[0] not in ("!", "#")
+            if len(l) > 0
         ]
         self.ind = np.array([l[0] for l in self.fwin])
         self.iterwin = iter(self.fwin)
-- 
2.43.0


From b5881b24e9836ea2699448447b400770108b5e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:01 +0000
Subject: [PATCH 13/45] fix: read mp_grid from .win also when it is separated
 only by blanks from its value

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 9877735..955f930 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -791,7 +791,7 @@ class ParserW90:
             EF = self.get_param("fermi_energy", float, None)
         except RuntimeError:
             EF = None
-        self.NK = np.prod(np.array(self.get_param("mp_grid", str).split(), dtype=int))
+        self.NK = np.prod(np.array(self.get_param("mp_grid", str, join=True).split(), dtype=int))
 
         return self.NK, self.NBin, self.spinor, EF
 
-- 
2.43.0


From 70c76a1291156ccddfd93a886dc95bfb91b0366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:02 +0000
Subject: [PATCH 14/45] fix: read atoms_cart of .win with a line of units or
 before the unit cell

The optional line bohr/ang was taken for an atom and cartesian positions were
converted with a lattice that might not have been read yet.
---
 irrep/readfiles.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 955f930..2392bae 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -865,8 +865,12 @@ class ParserW90:
                     found_atoms = True
                     positions = []
                     nameat = []
+                    atoms_units = "ang"
                     while True:
                         l1 = next(self.iterwin)
+                        if l1[0] in ("bohr", "ang") and len(l1) == 1:
+                            atoms_units = l1[0]
+                            continue
                         if l1[0] == "end":
                             if l1[1] != l[1]:
                                 raise RuntimeError(
@@ -881,8 +885,13 @@ class ParserW90:
                     typatdic = {n: i + 1 for i, n in enumerate(set(nameat))}
                     typat = [typatdic[n] for n in nameat]
                     positions = np.array(positions, dtype=float)
-                    if l[1][6:10] == "cart":  # from cartesian to direct coords
-                        positions = positions.dot(np.linalg.inv(lattice))
+                    if atoms_units == "bohr":
+                        positions *= BOHR
+                    cartesian = l[1][6:10] == "cart"
+
+        # The blocks may come in any order
+        if cartesian:  # from cartesian to direct coords
+            positions = positions.dot(np.linalg.inv(lattice))
 
         return lattice, positions, typat, kpred
 
-- 
2.43.0


From 99fb3e559e0c391349a9aa3f3240d4ad35c3cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 15/45] fix: use all plane waves below Ecut of Wannier90's UNK
 files

The search stopped at G-vectors whose L1 norm reached half of the largest
dimension of the grid, which leaves out plane waves of the sphere (and breaks its
symmetry) when the grid is tight or the cell skewed.
---
 irrep/bandstructure.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 02450d6..7e3284b 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -25,7 +25,7 @@ import numpy.linalg as la
 from .readfiles import ParserAbinit, ParserVasp, ParserEspresso, ParserW90
 from .kpoint import Kpoint
 from .spacegroup import SpaceGroup
-from .gvectors import sortIG, calc_gvectors
+from .gvectors import sortIG, calc_gvectors, twomhbar2
 from .utility import BOHR, log_message
 
 
@@ -347,13 +347,25 @@ class BandStructure:
                 kpt = kpred[ik]
                 Energy = Energies[ik]
                 ngx, ngy, ngz = parser.parse_grid(ik+1)
-                kg = calc_gvectors(kpred[ik],
-                                   self.RecLattice,
-                                   self.Ecut,
-                                   spinor=self.spinor,
-                                   nplanemax=np.max([ngx, ngy, ngz]) // 2,
-                                   v=v
-                                   )
+                ngrid = np.array([ngx, ngy, ngz])
+                lengths = np.linalg.norm(self.Lattice, axis=1)
+                Ecut_k = self.Ecut
+                for reduced in (False, True):
+                    # Largest components of the plane waves in the sphere
+                    gmax = np.floor(np.sqrt(Ecut_k * twomhbar2) * lengths / (2*np.pi)
+                                    + np.abs(kpt) + 1e-8)
+                    kg = calc_gvectors(kpred[ik],
+                                       self.RecLattice,
+                                       Ecut_k,
+                                       spinor=self.spinor,
+                                       nplanemax=int(np.sum(gmax)) + 1,
+                                       v=v
+                                       )
+                    # Largest distance along each axis that fits in the grid of UNK
+                    gmax_grid = np.min(((ngrid + 1) // 2 - np.abs(kpt)) * 2*np.pi / lengths)
+                    if reduced or gmax_grid <= 0 or np.all(2 * np.abs(kg[:3]) < ngrid[:, None]):
+                        break
+                    Ecut_k = (1 - 1e-8) * gmax_grid**2 / twomhbar2
                 selectG = tuple(kg[0:3])
                 msg = f'Parsing wave functions at k-point #{ik:>3d}: {kpt}'
                 log_message(msg, v, 2)
-- 
2.43.0


From e6b1f5e237b794a2ad91a37ffa235f127850dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 16/45] fix: use the inverse rotation in the phase of symmetry
 matrices, as in the traces

---
 irrep/gvectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 019bd7a..7665943 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -413,7 +413,9 @@ def symm_matrix(
         Bloch Hamiltonian :math:`H(k)`.
     """
     npw1 = igall.shape[1]
-    multZ = np.exp(-1.0j * (2 * np.pi * A.dot(T).dot(igall[:3, :] + K[:, None])))
+    multZ = np.exp(
+        -1.0j * (2 * np.pi * np.linalg.inv(A).dot(T).dot(igall[:3, :] + K[:, None]))
+    )
     igrot = transformed_g(K, igall, RecLattice, A)
     if spinor:
         WF1 = np.stack([WF[:, igrot], WF[:, igrot + npw1]], axis=2).conj()
-- 
2.43.0


From 365d45d80165a0d5cde0a649f59db217bb9e8f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 17/45] fix: keep the last energy level when irreps are not
 identified

---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 0d6a2d7..91273e5 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -663,7 +663,7 @@ class Kpoint:
 
         self.onlytraces = irreptable is None
         if self.onlytraces:
-            irreps = ["None"] * (len(self.degeneracies) - 1)
+            irreps = ["None"] * len(self.degeneracies)
 
         else:
 
-- 
2.43.0


From bcadb24d95e2ff489169322637667dc2c60ad068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 18/45] fix: make the separation by symmetry work without
 Kramers pairs, with verbosity and more than once

---
 irrep/bandstructure.py |  2 +-
 irrep/kpoint.py        | 50 ++++++++++++++++++++++++++----------------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 7e3284b..8f14bfd 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -673,7 +673,7 @@ class BandStructure:
 
         # Separate each k-point
         kpseparated = [
-            kp.Separate(symop, degen_thresh=degen_thresh, groupKramers=groupKramers)
+            kp.Separate(symop, degen_thresh=degen_thresh, groupKramers=groupKramers, v=v)
             for kp in self.kpoints
         ] # each element is a dict with separated bandstructure of a k-point
 
diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 91273e5..9d4444f 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -277,6 +277,9 @@ class Kpoint:
         WF : array
             Coefficients of the plane-wave expansion of wave-functions. Each row 
             corresponds to a wave-function, each row to a plane-wave.
+        inds : array
+            Row of `char` (and element of `irreps`) corresponding to each 
+            state.
 
         Returns
         -------
@@ -288,10 +291,16 @@ class Kpoint:
         # Sort energy levels
         sortE = np.argsort(E)
         other.Energy_mean = E[sortE]
+        other.Energy_raw = E[sortE]
         other.WF = WF[sortE]
         other.num_bands = len(E)
         inds = inds[sortE]
 
+        # States of the same energy level
+        other.borders = np.hstack(
+            ([0], np.where(inds[1:] != inds[:-1])[0] + 1, [other.num_bands])
+        )
+
         # Do not group by degeneracy of energy-levels for printing
         other.degeneracies = [1] * other.num_bands
         char = []
@@ -488,7 +497,7 @@ class Kpoint:
         check = np.max(abs(Sblock))
         if check > 0.1:
             msg = ("WARNING: matrix of symmetry has non-zero elements between "
-                   "states of different energy:  \n", check)
+                   "states of different energy:  \n{}".format(check))
             log_message(msg, v, 1)
             msg = (f"Printing matrix of symmetry at k={self.k}")
             log_message(msg, v, 1)
@@ -497,21 +506,21 @@ class Kpoint:
         # Calculate eigenvalues and eigenvectors in each block
         eigenvalues = []
         eigenvectors = []
+        # index for set of states (row of self.char)
+        rows = np.repeat(np.arange(len(self.degeneracies)), self.degeneracies)
         inds_states = []
         Eloc = []
-        for istate, num_states in  enumerate(self.degeneracies):
-            b1 = self.borders[istate]
-            b2 = self.borders[istate+1]
-            inds_states += [istate] * num_states  # index for set of states
+        for b1, b2 in zip(self.borders, self.borders[1:]):
+            inds_states += list(rows[b1:b2])
             W, V = la.eig(S[b1:b2, b1:b2])
-            for w, v in zip(W, V.T):
-                eigenvalues.append(w)
-                Eloc.append(self.Energy_mean[istate])
+            for eigval, eigvec in zip(W, V.T):
+                eigenvalues.append(eigval)
+                Eloc.append(self.Energy_mean[rows[b1]])
                 eigenvectors.append(
-                    np.hstack((np.zeros(b1), v, np.zeros(self.num_bands - b2)))
+                    np.hstack((np.zeros(b1), eigvec, np.zeros(self.num_bands - b2)))
                 )
         w = np.array(eigenvalues)
-        v = np.array(eigenvectors).T # each col an eigenvector
+        vecs = np.array(eigenvectors).T # each col an eigenvector
         Eloc = np.array(Eloc)
         inds_states = np.array(inds_states)
 
@@ -529,7 +538,7 @@ class Kpoint:
             # Sort based on real part of eigenvalues
             arg = np.argsort(np.real(w))
             w = w[arg]
-            v = v[:, arg]
+            vecs = vecs[:, arg]
             Eloc = Eloc[arg]
             inds_states = inds_states[arg]
             borders = np.hstack(
@@ -539,31 +548,34 @@ class Kpoint:
             # Probably this if-else statement can be removed
             if len(borders) > 0:
                 for b1, b2 in zip(borders, borders[1:]):
-                    v1 = v[:, b1:b2]
+                    v1 = vecs[:, b1:b2]
                     subspaces[w[b1:b2].mean()] = self.copy_sub(E=Eloc[b1:b2], WF=v1.T.dot(self.WF), inds=inds_states[b1:b2])
             else:
-                v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), degen_thresh=degen_thresh, inds_states=inds_states)
+                v1 = vecs
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         else:  # don't group Kramers pairs
             
             # Sort based on the argument of eigenvalues
             arg = np.argsort(np.angle(w))
             w = w[arg]
-            v = v[:, arg]
+            vecs = vecs[:, arg]
             Eloc = Eloc[arg]
+            inds_states = inds_states[arg]
             borders = np.where(abs(w - np.roll(w, 1)) > 0.1)[0]
 
             if len(borders) > 0:
                 for b1, b2 in zip(borders, np.roll(borders, -1)):
-                    v1 = np.roll(v, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
+                    v1 = np.roll(vecs, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
                     subspaces[np.roll(w, -b1)[: (b2 - b1) % self.num_bands].mean()] = self.copy_sub(
-                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands], degen_thresh=degen_thresh, WF=v1.T.dot(self.WF)
+                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands],
+                        WF=v1.T.dot(self.WF),
+                        inds=np.roll(inds_states, -b1)[: (b2 - b1) % self.num_bands],
                     )
 
             else:
-                v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, degen_thresh=degen_thresh, WF=v1.T.dot(self.WF))
+                v1 = vecs
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         return subspaces
 
-- 
2.43.0


From 5d3dc488e5c0f526fbc998abb4ec27befa4c19c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 19/45] fix: keep k points whose eigenvalues are not paired
 when grouping Kramers pairs

---
 irrep/bandstructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 8f14bfd..4d01ec7 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -701,9 +701,10 @@ class BandStructure:
                     other = copy.copy(self)
                     other.kpoints = []
                     for K in kpseparated:
+                        # in the pairs, only the real parts are equal
                         vk = list(K.keys())
-                        vk0 = vk[np.argmin(np.abs(v - vk))]
-                        if abs(vk0 - v) < 0.05:
+                        vk0 = vk[np.argmin(np.abs(v - np.real(vk)))]
+                        if abs(np.real(vk0) - v) < 0.05:
                             other.kpoints.append(K[vk0])
                     subspaces[v] = other # unnecessary indent ?
                 return subspaces
-- 
2.43.0


From 24c4755b5b9272bf0b4c5ba61ab2e7ad65f79c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 20/45] fix: separate by several symmetries without mixing the
 results of each step

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index e755bfe..6db1be1 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -419,8 +419,8 @@ def cli(
     if isymsep is not None:
         json_data["separated by symmetry"]=True
         json_data["separating symmetries"]=isymsep
-        tmp_subbands = {}
         for isym in isymsep:
+            tmp_subbands = {}
             print("\n-------- SEPARATING BY SYMMETRY # {} --------".format(isym))
             for s_old, bs in subbands.items():
                 separated = bs.Separate(isym, degen_thresh=degenthresh, groupKramers=groupkramers, v=v)
-- 
2.43.0


From 2631238857ed23564bfd1bfbc84430fe10daab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 21/45] fix: write the names of the k points in the json output

---
 irrep/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 6db1be1..fd76287 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -410,7 +410,7 @@ def cli(
     # Temporary, until we make it valid for isymsep
     json_data = {}
     json_data ["spacegroup"] = bandstr.spacegroup.json(symmetries=symmetries)
-    json_bandstr = bandstr.json()
+    json_bandstr = bandstr.json(kpnames)
     json_data['characters and irreps'] = [{"subspace": json_bandstr}]
 
     # Separate in terms of symmetry eigenvalues
@@ -428,6 +428,8 @@ def cli(
                     tmp_subbands[tuple(list(s_old) + [s_new])] = bs_separated
             subbands = tmp_subbands
         json_data["characters and irreps"]=[]
+        names = [None] * bandstr.num_k if kpnames is None else kpnames
+        names = {kp.ik0: name for kp, name in zip(bandstr.kpoints, names)}
         for k, sub in subbands.items():
             if isymsep is not None:
                 print(
@@ -437,7 +439,7 @@ def cli(
                     ),
                 )
                 sub.write_characters()
-                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json(symmetries)})
+                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json([names[kp.ik0] for kp in sub.kpoints])})
     else :
         json_data["separated by symmetry"]=False
         
-- 
2.43.0


From 8141969281193761a9fd5530d17c04ae652f3bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 22/45] fix: calculate Zak phases and Wannier charge centers,
 of every subspace

---
 irrep/bandstructure.py | 10 +++++-----
 irrep/cli.py           |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 4d01ec7..55eda17 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -764,7 +764,7 @@ class BandStructure:
         print("overlaps")
         for O in overlaps:
             print(np.abs(O[0, 0]), np.angle(O[0, 0]))
-        print("   sum  ", np.sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
+        print("   sum  ", sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
         #        overlaps.append(self.kpoints[-1].overlap(self.kpoints[0],g=np.array( (self.kpoints[-1].K-self.kpoints[0].K).round(),dtype=int )  )  )
         nmax = np.min([o.shape for o in overlaps])
         # calculate zak phase in incresing dimension of the subspace (1 band,
@@ -775,13 +775,13 @@ class BandStructure:
         #        print (np.array([k.Energy[1:] for k in self.kpoints] ))
         #        print (np.min([k.Energy[1:] for k in self.kpoints],axis=0) )
         emin = np.hstack(
-            (np.min([k.Energy[1:nmax] for k in self.kpoints], axis=0), [np.inf])
+            (np.min([k.Energy_raw[1:nmax] for k in self.kpoints], axis=0), [np.inf])
         )
-        emax = np.max([k.Energy[:nmax] for k in self.kpoints], axis=0)
+        emax = np.max([k.Energy_raw[:nmax] for k in self.kpoints], axis=0)
         locgap = np.hstack(
             (
                 np.min(
-                    [k.Energy[1:nmax] - k.Energy[0 : nmax - 1] for k in self.kpoints],
+                    [k.Energy_raw[1:nmax] - k.Energy_raw[0 : nmax - 1] for k in self.kpoints],
                     axis=0,
                 ),
                 [np.inf],
@@ -807,7 +807,7 @@ class BandStructure:
             np.dot,
             [functools.reduce(np.dot, np.linalg.svd(O)[0:3:2]) for O in overlaps],
         )
-        return np.sort((np.angle(np.linalg.eig(wilson)) / (2 * np.pi)) % 1)
+        return np.sort((np.angle(np.linalg.eigvals(wilson)) / (2 * np.pi)) % 1)
 
     def write_plotfile(self, filename='bands-tognuplot.dat'):
         """
diff --git a/irrep/cli.py b/irrep/cli.py
index fd76287..1d538ef 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -458,7 +458,7 @@ def cli(
                         n=n + 1, z=z / np.pi, gap=gw, cent=gc, lg=lgw
                     )
                 )
-            exit()
+        exit()
 
     if wcc:
         for k in subbands:
-- 
2.43.0


From 2181a2546f63c85dde327fe06c92edb4e49b11d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 23/45] fix: print the vectors and positions of the reference
 cell

---
 irrep/spacegroup.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 5982879..d38df05 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -749,8 +749,7 @@ class SpaceGroup():
         print('')
 
         # Print cell vectors in DFT and reference cells
-        vecs_refUC = np.dot(self.Lattice, self.refUC).T
-        #vecs_refUC = np.dot(self.refUC, self.Lattice)
+        vecs_refUC = np.dot(self.refUC.T, self.Lattice)
         print('Cell vectors in angstroms:\n')
         print('{:^32}|{:^32}'.format('Vectors of DFT cell', 'Vectors of REF. cell'))
         for i in range(3):
@@ -765,7 +764,7 @@ class SpaceGroup():
         # Print atomic positions
         print('Atomic positions in direct coordinates:\n')
         print('{:^} | {:^25} | {:^25}'.format('Atom type', 'Position in DFT cell', 'Position in REF cell'))
-        positions_refUC = self.positions.dot(np.linalg.inv(self.refUC.T))
+        positions_refUC = (self.positions - self.shiftUC).dot(np.linalg.inv(self.refUC.T))
         for itype, pos1, pos2 in zip(self.typat, self.positions, positions_refUC):
             s = '{:^9d}'.format(itype)
             s += ' | '
-- 
2.43.0


From 2720280ab1ffdd8704152ae2a1c7c91db9643692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 24/45] fix: sign of the translations read from prefix.sym

---
 irrep/spacegroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index d38df05..0861258 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1373,5 +1373,6 @@ def cart_to_crystal(rot_cart, trans_cart, lattice, alat):
     rot_crystal = np.array([(lat_inv.T @ rot @  lattice.T) for rot in rot_cart])
     assert np.allclose(rot_crystal, np.round(rot_crystal)), f"rotations are not integers in crystal coordinates : {rot_crystal}"
     rot_crystal = np.round(rot_crystal).astype(int)
-    trans_crystal = trans_cart @ lat_inv * alat * BOHR
+    # in the file, operations act on a point r as rR - t
+    trans_crystal = - trans_cart @ lat_inv * alat * BOHR
     return rot_crystal , trans_crystal 
\ No newline at end of file
-- 
2.43.0


From 10efe5e813e5665f38a0140daaa4a96bfde83136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 25/45] fix: apply the options trans_thresh, alat and
 correct_Ecut0 of the command line

---
 irrep/bandstructure.py | 5 +++++
 irrep/cli.py           | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 55eda17..6d40648 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -92,6 +92,9 @@ class BandStructure:
         1: print info about decisions taken internally by the code, recommended 
         when the code runs without errors but the result is not the expected.
         2: print detailed info, recommended when the code stops with an error
+    correct_Ecut0 : float, default=0.
+        In case of VASP, small correction (in eV) to the cutoff of the DFT 
+        calculation.
 
     Attributes
     ----------
@@ -161,6 +164,7 @@ class BandStructure:
         v=0,
         alat=None,
         from_sym_file=None,
+        correct_Ecut0=0.,
     ):
 
         code = code.lower()
@@ -180,6 +184,7 @@ class BandStructure:
             self.Lattice, positions, typat = parser.parse_poscar(v)
             if not onlysym:
                 NK, NBin, self.Ecut0, lattice = parser.parse_header()
+                self.Ecut0 += correct_Ecut0
                 if not np.allclose(self.Lattice, lattice):
                     raise RuntimeError("POSCAR and WAVECAR contain different lattices")
                 EF_in = None  # not written in WAVECAR
diff --git a/irrep/cli.py b/irrep/cli.py
index 1d538ef..9ab7c51 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -375,10 +375,13 @@ def cli(
         refUC = refuc,
         shiftUC = shiftuc,
         search_cell = searchcell,
+        trans_thresh=trans_thresh,
         degen_thresh=degenthresh,
         save_wf=save_wf,
         v=v,
-        from_sym_file=from_sym_file
+        alat=alat,
+        from_sym_file=from_sym_file,
+        correct_Ecut0=correct_ecut0
     )
 
     bandstr.spacegroup.show()
-- 
2.43.0


From a032004031c40909985caf3f1a1b958110c3d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 26/45] fix: print only the symmetries selected with
 -symmetries

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 9ab7c51..687028a 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -384,7 +384,7 @@ def cli(
         correct_Ecut0=correct_ecut0
     )
 
-    bandstr.spacegroup.show()
+    bandstr.spacegroup.show(symmetries=symmetries)
 
     if writesym:
         bandstr.spacegroup.write_sym_file(filename=prefix+".sym", alat=alat)
-- 
2.43.0


From 5966a5f78b572a61d2b2e8ec08df4caf1f0347bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 27/45] fix: accept the Fermi energy given as a number

---
 irrep/bandstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 6d40648..2db27b6 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -256,6 +256,7 @@ class BandStructure:
             return
 
         # Set Fermi energy
+        EF = str(EF)  # may be given as a number
         if EF.lower() == "auto":
             if EF_in is None:
                 self.efermi = 0.0
-- 
2.43.0


From b6ff90e2e04baf4b4b380e308c670260346b264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 28/45] fix: accept numbers and lists in the configuration file

---
 irrep/cli.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 687028a..34f8436 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -48,9 +48,15 @@ class LoadContextFromConfig(click.Command):
             # sanitize inputs to be all lower-case
             config_data = {k.lower(): v for k, v in config_data.items()}
 
-            for param, value in ctx.params.items():
-                if param in config_data:
-                    ctx.params[param] = config_data[param]
+            # values have the same type as if they were set in command line
+            for param in self.params:
+                if param.name in ctx.params and param.name in config_data:
+                    value = config_data[param.name]
+                    if isinstance(value, (list, tuple)):
+                        value = ",".join(str(x) for x in value)
+                    if value is not None:
+                        value = param.type.convert(value, param, ctx)
+                    ctx.params[param.name] = value
 
         return super(LoadContextFromConfig, self).invoke(ctx)
 
-- 
2.43.0


From f50551e59a848083693d59de471b95a440046b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 29/45] fix: count inversion-odd states also when the inversion
 center is not the origin

---
 irrep/kpoint.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 9d4444f..a25e4cc 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -223,11 +223,7 @@ class Kpoint:
             # Determine number of band inversions based on parity
             found = False
             for i,sym in enumerate(self.little_group):
-                if (
-                    sum(abs(sym.translation)) < 1e-6
-                    and
-                    abs(sym.rotation + np.eye(3)).sum() < 1e-6
-                ):
+                if abs(sym.rotation + np.eye(3)).sum() < 1e-6:
                     found = True
                     break
             if found:
-- 
2.43.0


From e4041aabf419c5ef54e7211aad1b2b8aaafb938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 30/45] fix: traces in reference cells that do not match the
 tables

---
 irrep/kpoint.py     | 5 +++--
 irrep/spacegroup.py | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index a25e4cc..7b4d0f3 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -643,8 +643,9 @@ class Kpoint:
 
         # Transfer traces in calculational cell to refUC
         char_refUC = char.copy()
-        if (not np.allclose(refUC, np.eye(3, dtype=float)) or
-            not np.allclose(shiftUC, np.zeros(3, dtype=float))):
+        if (symmetries_tables is not None and
+            (not np.allclose(refUC, np.eye(3, dtype=float)) or
+             not np.allclose(shiftUC, np.zeros(3, dtype=float)))):
             # Calculational and reference cells are not identical
             for i,sym in enumerate(self.little_group):
                 dt = (symmetries_tables[sym.ind-1].t 
diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 0861258..4ae8bf5 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -604,6 +604,7 @@ class SpaceGroup():
                 self.symmetries.append(self.symmetries[i_ind])
             self.symmetries = self.symmetries[i+1:]
         except RuntimeError:
+            self.symmetries_tables = None  # not the symmetries of this cell
             if search_cell:  # symmetries must match to identify irreps
                 raise RuntimeError((
                     "refUC and shiftUC don't transform the cellto one where "
-- 
2.43.0


From 5c3a8db9c6803fdaf94f96a6b78454795c0ac26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 31/45] fix: orthonormal states in the subspaces of a symmetry
 with repeated eigenvalues

---
 irrep/kpoint.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 7b4d0f3..46620dd 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -18,8 +18,8 @@
 
 from functools import lru_cache
 import numpy as np
-import numpy.linalg as la
 import copy
+from scipy.linalg import schur
 from .gvectors import symm_eigenvalues, symm_matrix
 from .utility import compstr, is_round, format_matrix, log_message
 
@@ -508,8 +508,9 @@ class Kpoint:
         Eloc = []
         for b1, b2 in zip(self.borders, self.borders[1:]):
             inds_states += list(rows[b1:b2])
-            W, V = la.eig(S[b1:b2, b1:b2])
-            for eigval, eigvec in zip(W, V.T):
+            # orthonormal eigenvectors, also for repeated eigenvalues
+            T, V = schur(S[b1:b2, b1:b2], output="complex")
+            for eigval, eigvec in zip(np.diag(T), V.T):
                 eigenvalues.append(eigval)
                 Eloc.append(self.Energy_mean[rows[b1]])
                 eigenvectors.append(
-- 
2.43.0


From 2969737ff0bd36a97becbd528cc369864eb87b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:50 +0000
Subject: [PATCH 32/45] fix: do not modify the list of k points given by the
 user

---
 irrep/bandstructure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 2db27b6..94f3a15 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -310,8 +310,7 @@ class BandStructure:
         if kplist is None:
             kplist = range(NK)
         else:
-            kplist -= 1
-            kplist = np.array([k for k in kplist if k >= 0 and k < NK])
+            kplist = np.array([k - 1 for k in kplist if k >= 1 and k <= NK])
 
         # Parse wave functions at each k-point
         self.kpoints = []
-- 
2.43.0


From b7f7a2b7595f1cbcd7df923cc1f89c48ae602059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:05 +0000
Subject: [PATCH 33/45] fix: convert the lattice vectors read from ABINIT to
 angstroms

---
 irrep/bandstructure.py | 2 +-
 irrep/readfiles.py     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 94f3a15..7a6fb9f 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -340,7 +340,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}: {kpt}'
                 log_message(msg, v, 2)
                 WF, Energy, kg = parser.parse_kpoint(ik)
-                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'espresso':
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 2392bae..20d0395 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -142,7 +142,8 @@ class ParserAbinit():
         nkpt : int
             Number of k-points in WFK file
         rprimd : array
-            Each row contains the Cartesian coords of a DFT cell vector
+            Each row contains the Cartesian coords (in angstroms) of a DFT 
+            cell vector
         ecut : float
             Plane-wave cutoff used for the DFT calculation
         spinor : bool
@@ -195,7 +196,7 @@ class ParserAbinit():
          usepaw,
          nspinor,
          occopt) = np.array(record[0])[[0, 4, 8, 12, 13, 11, 14, 17, 10, 15]]
-        rprimd = record[1][7:16].reshape((3, 3))
+        rprimd = record[1][7:16].reshape((3, 3)) * BOHR
         ecut = record[1][0] * Hartree_eV
         nshiftk_orig = record[2][1]
         nshiftk = record[2][2]
-- 
2.43.0


From a9bd24f0ad64e18e12eefde6f9539ca459f5a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:17 +0000
Subject: [PATCH 34/45] fix: print imaginary parts of traces that are complex
 only in the reference cell

---
 irrep/kpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 46620dd..657812f 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -734,7 +734,8 @@ class Kpoint:
             str_irreps.append(s)
 
         # Set auxiliary blank strings for formatting
-        writeimaginary = np.abs(self.char.imag).max() > 1e-4
+        writeimaginary = max(np.abs(self.char.imag).max(),
+                             np.abs(self.char_refUC.imag).max()) > 1e-4
         if writeimaginary:
             aux1 = ' ' * 4
         else:
-- 
2.43.0


From 715aedacf907e7d628b6c351bf4aa75c78ae2f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:23 +0000
Subject: [PATCH 35/45] fix: stop searching plane waves of VASP where there
 cannot be more

If the number of plane waves in WAVECAR was not reached within the cutoff,
the search went on practically forever instead of reporting the mismatch
(the error that correct_Ecut0 is meant for).
---
 irrep/gvectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 7665943..8f6b63d 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -99,6 +99,10 @@ def calc_gvectors(
     igall = []
     Eg = []
     memory = np.full(10, True)
+    # No plane wave within the cutoff beyond these shells
+    lengths = 2 * np.pi * la.norm(la.inv(B), axis=0)
+    gmax = np.floor(np.sqrt(Ecut * twomhbar2) * lengths / (2 * np.pi) + np.abs(K) + 1e-8)
+    nplanemax = min(nplanemax, int(gmax.sum()) + len(memory) + 2)
     for N in range(nplanemax):
         flag = True
         if N % 10 == 0:
-- 
2.43.0


From 6c94af6a618e5c4fdf6b9942254613c16736b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:23 +0000
Subject: [PATCH 36/45] fix: save complex eigenvalues of the separating
 symmetries in the json file

---
 irrep/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 34f8436..187fe8d 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -448,7 +448,9 @@ def cli(
                     ),
                 )
                 sub.write_characters()
-                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json([names[kp.ik0] for kp in sub.kpoints])})
+                # complex numbers as (real, imaginary), like the multiplicities of irreps
+                eigenvalues = [ev if np.isrealobj(ev) else (ev.real, ev.imag) for ev in k]
+                json_data["characters and irreps"].append({"symmetry eigenvalues": eigenvalues, "subspace": sub.json([names[kp.ik0] for kp in sub.kpoints])})
     else :
         json_data["separated by symmetry"]=False
         
-- 
2.43.0


From 120847f2e1e56e07819ba60280a307a82271e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 37/45] fix: separation by several symmetries from the command
 line

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 187fe8d..c74ecf9 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -359,7 +359,7 @@ def cli(
     if kpnames:
         kpnames = kpnames.split(",")
 
-    if isymsep or wcc or zak:
+    if isymsep is not None or wcc or zak:
         save_wf = True
     else:
         save_wf = False
-- 
2.43.0


From 5c75b3feb34c721e3d47414fe8cb23b161cc3c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 38/45] fix: refuse to separate by a symmetry that does not
 exist

---
 irrep/bandstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 7a6fb9f..e5dfa7b 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -671,6 +671,8 @@ class BandStructure:
 
         if isymop == 1:
             return {1: self}
+        if not 1 <= isymop <= len(self.spacegroup.symmetries):
+            raise RuntimeError("There is no symmetry with index {}".format(isymop))
 
         # Print description of symmetry used for separation
         symop = self.spacegroup.symmetries[isymop - 1]
-- 
2.43.0


From 01c68a9d1813e0a00673bb735ac3a60a205b229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 39/45] fix: refuse Quantum ESPRESSO wavefunctions stored on
 half of the plane waves

---
 irrep/readfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 20d0395..70b47ea 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -701,6 +701,10 @@ class ParserEspresso:
 
         rec = record_abinit(fWFC, "i4,3f8,i4,i4,f8")[0]
         kpt = rec[1]  # cartesian coords of k-point
+        if rec[3] != 0:
+            raise RuntimeError("Calculations with the gamma-point tricks "
+                               "(K_POINTS gamma) store only half of the plane "
+                               "waves and are not supported")
 
         rec = record_abinit(fWFC, "4i4")
         igwx = rec[1]
-- 
2.43.0


From 65bbcd93dfc5452b632cf19fd6f8443d0007cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 40/45] fix: compare the number of plane waves of the whole
 sphere with VASP's

---
 irrep/gvectors.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 8f6b63d..db0876f 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -99,10 +99,12 @@ def calc_gvectors(
     igall = []
     Eg = []
     memory = np.full(10, True)
-    # No plane wave within the cutoff beyond these shells
-    lengths = 2 * np.pi * la.norm(la.inv(B), axis=0)
-    gmax = np.floor(np.sqrt(Ecut * twomhbar2) * lengths / (2 * np.pi) + np.abs(K) + 1e-8)
-    nplanemax = min(nplanemax, int(gmax.sum()) + len(memory) + 2)
+    # Shells are surfaces |ig1|+|ig2|+|ig3|=N. No plane wave within the cutoff
+    # beyond this one
+    signs = np.array([[s1, s2, s3] for s1 in (-1, 1) for s2 in (-1, 1) for s3 in (-1, 1)])
+    nshell = np.max(np.sqrt(Ecut * twomhbar2) * la.norm(signs.dot(la.inv(B).T), axis=1)
+                    - signs.dot(K)) + 1e-8
+    nplanemax = min(nplanemax, int(nshell) + len(memory) + 2)
     for N in range(nplanemax):
         flag = True
         if N % 10 == 0:
@@ -110,10 +112,12 @@ def calc_gvectors(
             log_message(msg, v, 2)
         if len(igall) >= nplane / 2:    # Only enters if vasp
             if spinor:
-                break
+                if N > nshell:
+                    break
             else:      # Sure that not spinors?
                 if len(igall) >= nplane: # spinor=F, all plane waves found
-                    break
+                    if N > nshell:
+                        break
                 elif np.all(memory): # probably spinor wrong set as spinor=F
                     raise RuntimeError(
                           "calc_gvectors is stuck "
-- 
2.43.0


From d5e0f94ab18371d5b938d3243d9073b9034d6560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 41/45] fix: refuse a reference cell whose lattice is not the
 one of the tables

match_symmetries compared rotations and translations of the operations only,
so that a refUC with, e.g., a doubled axis or another centering was taken as
the cell of the tables and the irreps of wrong k points were assigned.
---
 irrep/spacegroup.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 4ae8bf5..af0629d 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1187,6 +1187,20 @@ class SpaceGroup():
             refUC = self.refUC
         if shiftUC is None:
             shiftUC = self.shiftUC
+
+        # The lattice must be that of the tables: the vectors of the cell used
+        # in the calculation are sums of those of the reference cell and of
+        # centering vectors, and the volumes have the right ratio
+        cent = self.vecs_centering()
+        dv = np.linalg.inv(refUC).T[:, None, :] - cent[None, :, :]
+        in_lattice = (abs(dv - dv.round()).max(axis=2) < 1e-4).any(axis=1)
+        if not (in_lattice.all() and
+                np.isclose(abs(np.linalg.det(refUC)), len(cent), atol=1e-3)):
+            raise RuntimeError(
+                "The lattice of the reference unit cell is not the one of "
+                "the tables. \nrefUC = \n{} \ncentering vectors = \n{}"
+                .format(refUC.T, cent))
+
         ind = []
         dt = []
         for j, sym in enumerate(self.symmetries):
-- 
2.43.0


From 635ee58414f0b2cf31c255424980b98a05e6c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 42/45] fix: find all plane waves of VASP calculations in
 strongly skewed cells

The search gave up after ten shells without plane waves, although in skewed
cells (vectors that are long combinations of short ones) there are more
beyond them.
---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index db0876f..0f121ca 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -118,7 +118,7 @@ def calc_gvectors(
                 if len(igall) >= nplane: # spinor=F, all plane waves found
                     if N > nshell:
                         break
-                elif np.all(memory): # probably spinor wrong set as spinor=F
+                elif N > nshell and np.all(memory): # probably spinor wrong set as spinor=F
                     raise RuntimeError(
                           "calc_gvectors is stuck "
                           "calculating plane waves of energy larger "
-- 
2.43.0


From 3c7f6031a8662f41759c94cf38fc1806e558e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 43/45] fix: read Wannier90 .eig files with a single eigenvalue

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 70b47ea..4d459ac 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -913,7 +913,7 @@ class ParserW90:
         '''
 
         feig = self.prefix + ".eig"
-        Energy = np.loadtxt(self.prefix + ".eig")
+        Energy = np.loadtxt(self.prefix + ".eig", ndmin=2)
         try:
             if Energy.shape[0] != self.NBin * self.NK:
                 raise RuntimeError("wrong number of entries ")
-- 
2.43.0


From 5e8d66c74abaf7723cfb32e2a56c673e1fd1f3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:41 +0000
Subject: [PATCH 44/45] fix: traces in the reference cell with part of the
 symmetries read from a file

---
 irrep/spacegroup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index af0629d..799928b 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -603,6 +603,9 @@ class SpaceGroup():
                 self.symmetries[i_ind].sign = signs[i_ind]
                 self.symmetries.append(self.symmetries[i_ind])
             self.symmetries = self.symmetries[i+1:]
+            # The n-th one of the tables is that of the n-th symmetry, also if
+            # only some symmetries are read from a file
+            self.symmetries_tables = [self.symmetries_tables[ind[i]] for i in args]
         except RuntimeError:
             self.symmetries_tables = None  # not the symmetries of this cell
             if search_cell:  # symmetries must match to identify irreps
-- 
2.43.0


From 6157d45182677fd021d30d449558916d02318453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 45/45] fix: refuse to identify irreps if the symmetries are
 not all those of the tables

---
 irrep/spacegroup.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 799928b..c466c23 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -951,6 +951,14 @@ class SpaceGroup():
         """
 
         table = IrrepTable(self.number, self.spinor, v=v)
+        if (self.symmetries_tables is None or
+            len(self.symmetries) != len(table.symmetries)):
+            raise RuntimeError("The symmetries are not all those of the tables "
+                               "in the reference unit cell, so irreps cannot be "
+                               "identified. \nrefUC = \n{} \nshiftUC = {} \n{} "
+                               "symmetries ({} in the tables)"
+                               .format(self.refUC.T, self.shiftUC,
+                                       len(self.symmetries), len(table.symmetries)))
         tab = {}
         for irr in table.irreps:
             if irr.kpname == kpname:
-- 
2.43.0

