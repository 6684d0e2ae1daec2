From 82b9bb5d0affbe6a12221d40f5c999ec8aef22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:38 +0000
Subject: [PATCH 01/45] fix: compare data instead of hashes when synchronising
 arrays

hash(-1.0) == hash(-2.0), so changing an energy from -1 to -2 (or vice versa)
left the arrays of primitive cells and supercells out of date.
---
 tbplas/builder/primitive.py | 29 ++++++++++++++++++++++-------
 tbplas/builder/super.py     | 22 +++++++++++-----------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 207d0a8..b89d05c 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -67,8 +67,9 @@ class PrimitiveCell(Observable):
         container of hopping terms in the primitive cell
         Only half of the hopping terms are stored. Conjugate terms are added
         automatically when constructing the Hamiltonian.
-    _hash_dict: Dict[str, int]
-        hashes of attributes to be used by 'sync_*' methods to update the arrays
+    _hash_dict: Dict[str, tuple]
+        fingerprints of attributes to be used by 'sync_*' methods to update the
+        arrays
     _orb_pos: (num_orb, 3) float64 array
         FRACTIONAL positions of all orbitals
     _orb_eng: (num_orb,) float64 array
@@ -136,18 +137,32 @@ class PrimitiveCell(Observable):
               self._hopping_dict, self.extended)
         return hash(fp)
 
-    def _get_attr_hash(self, attr: str) -> int:
+    def get_fingerprint(self) -> tuple:
         """
-        Get the hash of given attribute.
+        Get the fingerprint of this instance, which changes if and only if the
+        primitive cell changes.
+
+        :return: fingerprint
+        """
+        lat_vec = tuple([tuple(_) for _ in self._lat_vec])
+        return (lat_vec, tuple(self._origin), tuple(self._orbital_list),
+                tuple(self._hopping_dict.to_list()), self.extended)
+
+    def _get_attr_hash(self, attr: str) -> tuple:
+        """
+        Get the fingerprint of given attribute.
+
+        NOTE: actual data is used as the fingerprint, since different data may
+        have the same hash, e.g. hash(-1.0) == hash(-2.0).
 
         :param attr: name of the attribute
-        :return: hash of the attribute
+        :return: fingerprint of the attribute
         :raises ValueError: if attr is illegal
         """
         if attr == "orb":
-            new_hash = hash(tuple(self._orbital_list))
+            new_hash = tuple(self._orbital_list)
         elif attr == "hop":
-            new_hash = hash(self._hopping_dict)
+            new_hash = tuple(self._hopping_dict.to_list())
         else:
             raise ValueError(f"Illegal attribute name {attr}")
         return new_hash
diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 24b0958..a297ed5 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -1,6 +1,6 @@
 """Functions and classes for supercell."""
 
-from typing import Callable, Iterable, Tuple, Union, Set, List
+from typing import Callable, Hashable, Iterable, Tuple, Union, Set, List
 
 import numpy as np
 import matplotlib.pyplot as plt
@@ -32,8 +32,9 @@ class OrbitalSet(Observable):
         0 for False, 1 for True.
     _vacancy_set: Set[Tuple[int, int, int, int]]
         indices of vacancies in primitive cell representation (ia, ib, ic, io)
-    _hash_dict: Dict[str, int]
-        hashes of attributes to be used by 'sync_array' to update the arrays
+    _hash_dict: Dict[str, Hashable]
+        fingerprints of attributes to be used by 'sync_array' to update the
+        arrays
     _vac_id_sc: (num_vac,) int64 array
         indices of vacancies in supercell representation
     _orb_id_pc: (num_orb_sc, 4) int32 array
@@ -162,22 +163,21 @@ class OrbitalSet(Observable):
               tuple(self._vacancy_set))
         return hash(fp)
 
-    def _get_attr_hash(self, attr: str) -> int:
+    def _get_attr_hash(self, attr: str) -> Hashable:
         """
-        Get hash of given attribute.
+        Get fingerprint of given attribute.
 
-        For the primitive cell, we can use both its actual hash or the number
-        of orbitals as the fingerprint, while the latter is much faster.
+        NOTE: actual data is used as the fingerprint, since different data may
+        have the same hash, e.g. hash(-1.0) == hash(-2.0).
 
         :param attr: name of the attribute
-        :return: hash of the attribute
+        :return: fingerprint of the attribute
         :raises ValueError: if attr is illegal
         """
         if attr == "pc":
-            new_hash = hash(self._prim_cell)
-            # new_hash = self.num_orb_pc
+            new_hash = self._prim_cell.get_fingerprint()
         elif attr == "vac":
-            new_hash = hash(tuple(self._vacancy_set))
+            new_hash = frozenset(self._vacancy_set)
         else:
             raise ValueError(f"Illegal attribute name {attr}")
         return new_hash
-- 
2.43.0


From 737ac0f69ccd2b92bf049ead4e8269e792df1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 02/45] fix: keep hopping indices integer when the modifier
 only overwrites terms

---
 tbplas/builder/super.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index a297ed5..8215fb3 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -801,10 +801,11 @@ class SuperCell(OrbitalSet):
                     dr_new.append(dr_i)
 
             # Append additional hopping terms
-            hop_i = np.append(hop_i, hop_i_new)
-            hop_j = np.append(hop_j, hop_j_new)
-            hop_v = np.append(hop_v, hop_v_new)
+            # NOTE: appending empty lists would promote hop_i and hop_j to float.
             if len(dr_new) != 0:
+                hop_i = np.append(hop_i, hop_i_new)
+                hop_j = np.append(hop_j, hop_j_new)
+                hop_v = np.append(hop_v, hop_v_new)
                 dr = np.vstack((dr, dr_new))
         return hop_i, hop_j, hop_v, dr
 
-- 
2.43.0


From 264da522854b8fa100943de33bdfd2b70f04751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 03/45] fix: estimate the scaling factor w.r.t. the original
 Hamiltonian

A second call to rescale_ham() without factor undid the rescaling.
---
 tbplas/builder/sample.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index b164df4..3818bb3 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -294,6 +294,9 @@ class Sample(Observable):
         if factor is None:
             factor = core.get_rescale(self.orb_eng, self.hop_i, self.hop_j,
                                       self.hop_v)
+            # The estimation is for the Hamiltonian which has already been
+            # rescaled.
+            factor *= self._rescale
         self.orb_eng *= (self._rescale / factor)
         self.hop_v *= (self._rescale / factor)
         self._rescale = factor
-- 
2.43.0


From 2535e459e9f82b647ae16835966858e502ac2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 04/45] fix: use absolute on-site energies when estimating the
 scaling factor

Negative on-site energies reduced the estimate, such that the spectrum of the
rescaled Hamiltonian left [-1, 1].
---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index c48e522..3814ee0 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -104,7 +104,7 @@ def get_rescale(double [::1] orb_eng, long [::1] hop_i, long [::1] hop_j,
 
     ham_sum = np.zeros(num_orb_sc, dtype=np.float64)
     for io in range(num_orb_sc):
-        ham_sum[io] = orb_eng[io]
+        ham_sum[io] = abs(orb_eng[io])
     for ih in range(num_hop_sc):
         ii, jj = hop_i[ih], hop_j[ih]
         hop_abs = sqrt(hop_v[ih].real**2 + hop_v[ih].imag**2)
-- 
2.43.0


From 228863624a1c73fdb5f362d9896d0a36318fae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 05/45] fix: Peierls phase of the symmetric gauge

For A = (0.5By, -0.5Bx, 0) the phase is dx * sy - dy * sx.
---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index 3814ee0..dfa7fc2 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -68,7 +68,7 @@ def set_mag_field(long [::1] hop_i, long [::1] hop_j,
             dx, dy = dr[ih, 0], dr[ih, 1]
             sx = orb_pos[jj, 0] + orb_pos[ii, 0]
             sy = orb_pos[jj, 1] + orb_pos[ii, 1]
-            phase = factor * 0.5 * intensity * (dx * sx - dy * sy)
+            phase = factor * 0.5 * intensity * (dx * sy - dy * sx)
             hop_v[ih] = hop_v[ih] * (cos(phase) + 1j * sin(phase))
 
 
-- 
2.43.0


From 8bf1485911a7b36691b7bcaedf3e7feb5b8ab2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 06/45] fix: keep on-site energies consistent with the scaling
 factor

Forced re-initialisation of either on-site energies or hopping terms of a
rescaled sample left one of them scaled and the other not.
---
 tbplas/builder/sample.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index 3818bb3..da4134f 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -133,7 +133,8 @@ class Sample(Observable):
         """
         if force_init or self.orb_eng is None:
             orb_eng = [sc.get_orb_eng() for sc in self._sc_list]
-            self.orb_eng = np.concatenate(orb_eng)
+            # hop_v may have already been rescaled.
+            self.orb_eng = np.concatenate(orb_eng) / self._rescale
 
     def init_orb_pos(self, force_init: bool = False) -> None:
         """
@@ -195,6 +196,8 @@ class Sample(Observable):
             self.dr = np.concatenate(dr_tot)
 
             # Reset scaling factor
+            if self.orb_eng is not None:
+                self.orb_eng *= self._rescale
             self._rescale = 1.0
 
     def reset_array(self) -> None:
-- 
2.43.0


From 10b97bb7a7518ad4feaf733711866b44018f0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 07/45] fix: do not load an incomplete set of hopping arrays

If any of the files was missing, arrays from disk and from memory got mixed.
---
 tbplas/builder/sample.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index da4134f..0ac0ec4 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -256,13 +256,17 @@ class Sample(Observable):
         except FileNotFoundError:
             print(f"Ignoring {data_dir}/orb_pos.npy")
         try:
-            self.hop_i = np.load(f"{data_dir}/hop_i.npy")
-            self.hop_j = np.load(f"{data_dir}/hop_j.npy")
-            self.hop_v = np.load(f"{data_dir}/hop_v.npy")
-            self.dr = np.load(f"{data_dir}/dr.npy")
-            self._rescale = np.load(f"{data_dir}/rescale.npy").item()
+            hop_i = np.load(f"{data_dir}/hop_i.npy")
+            hop_j = np.load(f"{data_dir}/hop_j.npy")
+            hop_v = np.load(f"{data_dir}/hop_v.npy")
+            dr = np.load(f"{data_dir}/dr.npy")
+            rescale = np.load(f"{data_dir}/rescale.npy").item()
         except FileNotFoundError:
             print(f"Ignoring {data_dir}/hop_i.npy")
+        else:
+            self.hop_i, self.hop_j, self.hop_v = hop_i, hop_j, hop_v
+            self.dr = dr
+            self._rescale = rescale
 
     def update(self) -> None:
         """
-- 
2.43.0


From 53e32cbc5d6efe99cbcf0ce0c8e4fcbb2ea023bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 08/45] fix: check all indices before removing orbitals

An index out of range was detected after other orbitals had been removed,
without removing their hopping terms.
---
 tbplas/builder/primitive.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index b89d05c..2811f28 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -363,13 +363,14 @@ class PrimitiveCell(Observable):
         # Check arguments
         self.check_lock()
 
-        # Delete the orbitals
         indices = sorted(set(indices))
+        for orb_i in indices:
+            if not (0 <= orb_i < self.num_orb):
+                raise exc.PCOrbIndexError(orb_i)
+
+        # Delete the orbitals
         for i, orb_i in enumerate(indices):
-            try:
-                self._orbital_list.pop(orb_i - i)
-            except IndexError as err:
-                raise exc.PCOrbIndexError(orb_i) from err
+            self._orbital_list.pop(orb_i - i)
 
         # Delete associated hopping terms
         self._hopping_dict.remove_orbitals(indices)
-- 
2.43.0


From c41d7fb1780ba34d38227979e231711c61aaf12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 09/45] fix: refuse removal of hopping terms from locked
 inter-hopping

---
 tbplas/builder/base.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index 9e5daee..a936722 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -488,6 +488,44 @@ class InterHopping(Observable, IntraHopping):
         self.check_lock()
         super().add_hopping(rn, orb_i, orb_j, energy)
 
+    def remove_hopping(self, rn: rn_type,
+                       orb_i: int,
+                       orb_j: int) -> bool:
+        """
+        Remove an existing hopping term.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :param orb_i: orbital index or bra
+        :param orb_j: orbital index of ket
+        :return: where the hopping term is removed, False if not found
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_hopping(rn, orb_i, orb_j)
+
+    def remove_orbitals(self, indices: Union[Iterable[int], np.ndarray]) -> None:
+        """
+        Remove the hopping terms corresponding to a list of orbitals and update
+        remaining hopping terms.
+
+        :param indices: indices of orbitals to remove
+        :return: None
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        super().remove_orbitals(indices)
+
+    def remove_rn(self, rn: rn_type) -> bool:
+        """
+        Remove all the hopping terms of given cell index.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :return: where the hopping terms are removed, False if not found
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_rn(rn)
+
 
 class HopDict:
     """
-- 
2.43.0


From 29dfaf653e7d4b6ad3fa89292bb22d59317d8538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 10/45] fix: do not store a hopping matrix with diagonal terms
 which is rejected

---
 tbplas/builder/base.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index a936722..179364c 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -577,14 +577,14 @@ class HopDict:
             raise ValueError(f"Shape of hopping matrix {hop_mat.shape} does not "
                              f"match {self._mat_shape}")
 
+        # Check for diagonal terms
+        if rn == (0, 0, 0):
+            self._check_diag(hop_mat)
+
         # Set hopping matrix
         # We copy the hopping matrix to avoid changing it accidentally.
         self._hoppings[rn] = hop_mat.copy()
 
-        # Check for diagonal terms
-        if rn == (0, 0, 0):
-            self._check_diag()
-
     def __getitem__(self, rn: rn_type) -> np.ndarray:
         """
         Get the hopping matrix according to cell index.
@@ -617,20 +617,19 @@ class HopDict:
             raise exc.CellIndexLenError(rn)
         return rn
 
-    def _check_diag(self) -> None:
+    @staticmethod
+    def _check_diag(hop_mat: np.ndarray) -> None:
         """
         Check for diagonal hopping terms (on-site energies).
 
+        :param hop_mat: hopping matrix of the (0, 0, 0) cell
         :return: None
         :raises PCHopDiagonalError: if on-site energies are included in hopping
             matrix
         """
-        rn = (0, 0, 0)
-        if rn in self._hoppings.keys():
-            hop_mat = self._hoppings[rn]
-            for i, energy in enumerate(np.abs(np.diag(hop_mat))):
-                if energy >= 1e-5:
-                    raise exc.PCHopDiagonalError(rn, i)
+        for i, energy in enumerate(np.abs(np.diag(hop_mat))):
+            if energy >= 1e-5:
+                raise exc.PCHopDiagonalError((0, 0, 0), i)
 
     def to_spare(self) -> None:
         """
@@ -640,7 +639,8 @@ class HopDict:
         :raises PCHopDiagonalError: if on-site energies are included in hopping
             matrix
         """
-        self._check_diag()
+        if (0, 0, 0) in self._hoppings.keys():
+            self._check_diag(self._hoppings[(0, 0, 0)])
         new_hoppings = dict()
         for rn, hop_mat in self._hoppings.items():
             new_hoppings[rn] = coo_matrix(hop_mat)
-- 
2.43.0


From 920cf8c6a678b242c4a94ff1ba74d540b5f8dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 11/45] fix: leave vacancies unchanged when an invalid vacancy
 is rejected

Also allow for resetting vacancies with the default argument.
---
 tbplas/builder/super.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 8215fb3..afc86f5 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -259,11 +259,13 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
+        vacancy_list = []
         for vacancy in vacancies:
             if not isinstance(vacancy, tuple):
                 vacancy = tuple(vacancy)
             self._check_id_pc(vacancy)
-            self._vacancy_set.add(vacancy)
+            vacancy_list.append(vacancy)
+        self._vacancy_set.update(vacancy_list)
 
     def set_vacancies(self, vacancies: Union[Iterable[id_pc_type], np.ndarray] = None) -> None:
         """
@@ -278,8 +280,14 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
+        old_vacancies = self._vacancy_set
         self._vacancy_set = set()
-        self.add_vacancies(vacancies)
+        if vacancies is not None:
+            try:
+                self.add_vacancies(vacancies)
+            except Exception:
+                self._vacancy_set = old_vacancies
+                raise
 
     def sync_array(self, force_sync: bool = False) -> None:
         """
-- 
2.43.0


From 04e9f5b6fff6be2b1eaf756270d88a613fae4e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 12/45] fix: reject negative orbital indices in supercell
 representation

---
 tbplas/builder/super.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index afc86f5..17c4099 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -348,11 +348,9 @@ class OrbitalSet(Observable):
         :raises IDSCIndexError: if id_sc is out of range
         """
         self.sync_array()
-        try:
-            id_pc = self._orb_id_pc[id_sc]
-        except IndexError as err:
-            raise exc.IDSCIndexError(id_sc) from err
-        return id_pc
+        if not (0 <= id_sc < self.num_orb_sc):
+            raise exc.IDSCIndexError(id_sc)
+        return self._orb_id_pc[id_sc]
 
     def orb_id_pc2sc(self, id_pc: Union[id_pc_type, np.ndarray]) -> int:
         """
-- 
2.43.0


From 9b6314110ca3b1044efadb1d6ec617683ff51d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:21 +0000
Subject: [PATCH 13/45] fix: allow for adding the same hopping dictionary to
 several cells

---
 tbplas/builder/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index 179364c..85843a0 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -627,7 +627,7 @@ class HopDict:
         :raises PCHopDiagonalError: if on-site energies are included in hopping
             matrix
         """
-        for i, energy in enumerate(np.abs(np.diag(hop_mat))):
+        for i, energy in enumerate(np.abs(hop_mat.diagonal())):
             if energy >= 1e-5:
                 raise exc.PCHopDiagonalError((0, 0, 0), i)
 
-- 
2.43.0


From 141ed965fd54c32b48b4b222a823e27f930c171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:21 +0000
Subject: [PATCH 14/45] fix: check all terms of a hopping dictionary before
 adding them

---
 tbplas/builder/primitive.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 2811f28..ab0ce5e 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -410,12 +410,16 @@ class PrimitiveCell(Observable):
         """
         self.check_lock()
         hop_dict.to_spare()
+        hop_list = []
         for rn, hop_mat in hop_dict.hoppings.items():
             for i in range(hop_mat.nnz):
                 orb_i = hop_mat.row.item(i)
                 orb_j = hop_mat.col.item(i)
                 hop_eng = hop_mat.data.item(i)
-                self.add_hopping(rn, orb_i, orb_j, hop_eng)
+                self._check_hop_index(rn, orb_i, orb_j)
+                hop_list.append((rn, orb_i, orb_j, hop_eng))
+        for hop in hop_list:
+            self.add_hopping(*hop)
 
     def get_hopping(self, rn: rn_type,
                     orb_i: int,
-- 
2.43.0


From 9b7f82849eb7b80e3e76109e50a1301a9041d746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 15/45] fix: reallocate the Hamiltonian when the number of
 orbitals changes

Re-using a solver after adding orbitals to the model wrote out of bounds.
---
 tbplas/diagonal/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tbplas/diagonal/base.py b/tbplas/diagonal/base.py
index 2d55dad..7252b7c 100644
--- a/tbplas/diagonal/base.py
+++ b/tbplas/diagonal/base.py
@@ -245,18 +245,17 @@ class DiagSolver(MPIEnv):
         :raises RuntimeError: if diagonalization failed
         """
         # Set up the Hamiltonian
-        if self.__h_mat is None:
-            self.__h_mat = np.zeros((self.num_orb, self.num_orb),
-                                    dtype=np.complex128)
+        ham_shape = (self.num_orb, self.num_orb)
+        if self.__h_mat is None or self.__h_mat.shape != ham_shape:
+            self.__h_mat = np.zeros(ham_shape, dtype=np.complex128)
         else:
             self.__h_mat *= 0.0
         self.__model.set_ham_dense(k_point, self.__h_mat, convention)
 
         # Set up the overlap matrix
         if self.__overlap is not None:
-            if self.__s_mat is None:
-                self.__s_mat = np.zeros((self.num_orb, self.num_orb),
-                                        dtype=np.complex128)
+            if self.__s_mat is None or self.__s_mat.shape != ham_shape:
+                self.__s_mat = np.zeros(ham_shape, dtype=np.complex128)
             else:
                 self.__s_mat *= 0.0
             self.__overlap.set_overlap_dense(k_point, self.__s_mat, convention)
-- 
2.43.0


From a34cfe2b3ef339d5952b4b0e736850f78a2b5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 16/45] fix: allow for more processes than tasks

---
 tbplas/parallel.py | 3 ++-
 tbplas/utils.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/tbplas/parallel.py b/tbplas/parallel.py
index c5dac5e..7ca2aac 100644
--- a/tbplas/parallel.py
+++ b/tbplas/parallel.py
@@ -116,7 +116,8 @@ class MPIEnv:
         :return: lower and upper bounds of subrange assigned to this process
         """
         i_index = self.dist_range(n_max)
-        i_min, i_max = min(i_index), max(i_index)
+        # NOTE: i_max = i_min - 1 if there is nothing to do for this process.
+        i_min, i_max = i_index.start, i_index.stop - 1
         return i_min, i_max
 
     def reduce(self, data_local: np.ndarray) -> np.ndarray:
diff --git a/tbplas/utils.py b/tbplas/utils.py
index fb438f4..1a41ef5 100644
--- a/tbplas/utils.py
+++ b/tbplas/utils.py
@@ -310,7 +310,7 @@ def split_list(raw_list: List[Any],
         "remainder" or "range"
     :return: split list from raw_list
     """
-    assert num_group in range(1, len(raw_list)+1)
+    assert num_group >= 1
     assert algorithm in ("remainder", "range")
     num_element = len(raw_list)
     if algorithm == "remainder":
-- 
2.43.0


From 7ed8c7a56f490aa80bd15649bd03f3a230f59fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 17/45] fix: sum dynamic polarization over processes only once

The sum within the loop over q-points multiplied the results of all q-points
but the last by powers of the number of processes.
---
 tbplas/diagonal/lindhard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 9fe8e13..4b4b3a1 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -409,7 +409,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
@@ -498,7 +498,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
-- 
2.43.0


From e0d3ae429833a709d880da071e94d7948aff68fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 18/45] fix: accept lists of coordinates

np.ndarray() takes a shape, not data.
---
 tbplas/base/lattice.py      | 2 +-
 tbplas/diagonal/lindhard.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index e91babb..c09ff17 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -116,7 +116,7 @@ def frac2cart(lattice_vectors: np.ndarray,
     if not isinstance(lattice_vectors, np.ndarray):
         lattice_vectors = np.array(lattice_vectors)
     if not isinstance(fractional_coordinates, np.ndarray):
-        fractional_coordinates = np.ndarray(fractional_coordinates)
+        fractional_coordinates = np.array(fractional_coordinates)
     cartesian_coordinates = np.zeros(fractional_coordinates.shape)
     conversion_matrix = lattice_vectors.T
     for i, row in enumerate(fractional_coordinates):
diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 4b4b3a1..76c5e95 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -539,7 +539,7 @@ class Lindhard(DiagSolver):
             relative dielectric function
         """
         if not isinstance(q_points, np.ndarray):
-            q_points = np.ndarray(q_points, dtype=np.float64)
+            q_points = np.array(q_points, dtype=np.float64)
         num_qpt = q_points.shape[0]
         num_omega = self._omegas.shape[0]
         epsilon = np.zeros((num_qpt, num_omega), dtype=np.complex128)
-- 
2.43.0


From 28acd31a0d595cecc4e454ab4fd4f860bb220e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 19/45] fix: do not truncate rotated coordinates to integers

---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index c09ff17..f106bec 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -172,7 +172,7 @@ def rotate_coord(coord: np.ndarray,
     rot_mat = cos_ang * np.eye(3) + sin_ang * u_prod + (1 - cos_ang) * u_tens
 
     # Rotate coordinates
-    coord_rot = np.zeros(shape=coord.shape, dtype=coord.dtype)
+    coord_rot = np.zeros(shape=coord.shape, dtype=np.float64)
     for i in range(coord.shape[0]):
         coord_rot[i] = np.matmul(rot_mat, coord[i] - center) + center
     return coord_rot
-- 
2.43.0


From c00c9c72b699b313051c020dcda648d648411c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 20/45] fix: update spin texture when the primitive cell
 changes

---
 tbplas/diagonal/magnetic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tbplas/diagonal/magnetic.py b/tbplas/diagonal/magnetic.py
index 4ca6696..22cce23 100644
--- a/tbplas/diagonal/magnetic.py
+++ b/tbplas/diagonal/magnetic.py
@@ -23,8 +23,10 @@ class SpinTexture(DiagSolver):
         whether the orbitals are stored in spin-major order
     _states: (num_kpt, num_orb) complex128 array
         cache of wave functions
-    _hash_k: int
-        hash of k-grid
+    _cell: 'PrimitiveCell' instance
+        primitive cell for which properties will be evaluated
+    _hash_k: tuple
+        fingerprint of k-grid and primitive cell
     """
     def __init__(self, cell: Any,
                  k_grid: np.ndarray,
@@ -37,6 +39,7 @@ class SpinTexture(DiagSolver):
         :param kwargs: arguments for DiagSolver.__init__
         """
         super().__init__(model=cell, **kwargs)
+        self._cell = cell
         self._k_grid = k_grid
         self._spin_major = spin_major
         self._states = None
@@ -48,7 +51,9 @@ class SpinTexture(DiagSolver):
 
         :return: None
         """
-        hash_new = hash(tuple([tuple(_) for _ in self._k_grid]))
+        hash_new = tuple([tuple(_) for _ in self._k_grid])
+        if hasattr(self._cell, "get_fingerprint"):
+            hash_new = (hash_new, self._cell.get_fingerprint())
         if self._hash_k != hash_new:
             self._hash_k = hash_new
             self._states = self.calc_states(self._k_grid, all_reduce=False)[1]
-- 
2.43.0


From 737851b4976485d3a41ae5f93884648fa536608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:47 +0000
Subject: [PATCH 21/45] fix: search the whole reshaped cell for orbitals

Orbitals near the corners of the reshaped cell and orbitals out of the
primitive cell were missing.
---
 tbplas/builder/advanced.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index c3a1c55..af21224 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -181,15 +181,17 @@ def reshape_prim_cell(prim_cell: PrimitiveCell,
     res_cell.extended = prim_cell.extended * (vol_res / vol_prim)
 
     # Determine searching range
-    # sum_vec is actually a0+a1, a1+a2 or a2+a0 depending on j, i.e., the
-    # diagonal vector. If it is not taken into consideration, orbitals and
-    # hopping terms in the top right corner of reshaped cell may be missing.
+    # All corners of the reshaped cell must be taken into consideration, as well
+    # as orbitals out of the primitive cell. Otherwise, orbitals and hopping
+    # terms may be missing.
+    orb_pos = prim_cell.orb_pos
     rn_range = np.zeros((3, 2), dtype=np.int32)
-    for i in range(3):
-        sum_vec = lat_frac.sum(axis=0) - lat_frac[i]
+    if prim_cell.num_orb > 0:
         for j in range(3):
-            rn_range[j, 0] = min(rn_range[j, 0], floor(sum_vec[j]))
-            rn_range[j, 1] = max(rn_range[j, 1], ceil(sum_vec[j]))
+            lat_min = np.minimum(lat_frac[:, j], 0.0).sum()
+            lat_max = np.maximum(lat_frac[:, j], 0.0).sum()
+            rn_range[j, 0] = floor(lat_min - orb_pos[:, j].max())
+            rn_range[j, 1] = ceil(lat_max - orb_pos[:, j].min())
     rn_range[:, 0] -= 1
     rn_range[:, 1] += 1
 
@@ -198,7 +200,6 @@ def reshape_prim_cell(prim_cell: PrimitiveCell,
         return floor(x.item(0)), floor(x.item(1)), floor(x.item(2))
 
     # Add orbitals
-    orb_pos = prim_cell.orb_pos
     orb_map = OrbitalMap()
     for i_a in range(rn_range.item(0, 0), rn_range.item(0, 1)+1):
         for i_b in range(rn_range.item(1, 0), rn_range.item(1, 1)+1):
-- 
2.43.0


From 2c319106f5170a01992e521ef153e3c952bb0ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:47 +0000
Subject: [PATCH 22/45] fix: detect mismatching 'extended' irrespective of the
 order of cells

---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index af21224..ebdb9e1 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -364,7 +364,7 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
     # Determine the 'extended' attribute
     extended = pc_list[0].extended
     for pc in pc_list:
-        if (pc.extended - extended) >= 1.e-3:
+        if abs(pc.extended - extended) >= 1.e-3:
             print(f"INFO: resetting extend to 1.0")
             extended = 1.0
             break
-- 
2.43.0


From c7f758f8b7cc36c6a911f127bd492d364f2c49e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:47 +0000
Subject: [PATCH 23/45] fix: do not modify primitive cells when merging them

The lattice of each cell was reset, which also failed for locked cells.
---
 tbplas/builder/advanced.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index ebdb9e1..e04136f 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -371,11 +371,13 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
     merged_cell.extended = extended
 
     # Add orbitals
+    # The primitive cells may be locked and should not be modified.
     for pc in pc_list:
-        pc.reset_lattice(lat_ref, origin_ref, unit=consts.NM, fix_orb=True)
-        for orb in pc.orbitals:
-            merged_cell.add_orbital(position=orb.position, energy=orb.energy,
-                                    label=orb.label)
+        if pc.num_orb > 0:
+            orb_pos = cart2frac(lat_ref, pc.orb_pos_nm, origin_ref)
+            for pos, orb in zip(orb_pos, pc.orbitals):
+                merged_cell.add_orbital(position=tuple(pos), energy=orb.energy,
+                                        label=orb.label)
 
     # Add intra-hopping terms
     for i_pc, pc in enumerate(pc_list):
-- 
2.43.0


From d903dc495ef0c369e3f37b624fdca04bc59b64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:47 +0000
Subject: [PATCH 24/45] fix: reject out of range orbitals of inter-hopping when
 merging cells

They were silently taken for orbitals of the next cell.
---
 tbplas/builder/advanced.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index e04136f..8829329 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -395,6 +395,10 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
         offset_ket = ind_start[pc_list.index(hop.pc_ket)]
         for rn, hop_terms in hop.hoppings.items():
             for orb_pair, energy in hop_terms.items():
+                if not (0 <= orb_pair[0] < hop.pc_bra.num_orb):
+                    raise exc.PCOrbIndexError(orb_pair[0])
+                if not (0 <= orb_pair[1] < hop.pc_ket.num_orb):
+                    raise exc.PCOrbIndexError(orb_pair[1])
                 orb_i = orb_pair[0] + offset_bra
                 orb_j = orb_pair[1] + offset_ket
                 merged_cell.add_hopping(rn, orb_i=orb_i, orb_j=orb_j,
-- 
2.43.0


From 4dc27bf6c148f671b1a444ce52cf256469550a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 25/45] fix: divide Wannier90 matrix elements by the degeneracy
 of grid points

---
 tbplas/adapter/wannier90.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index 1068cba..43ecef3 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -91,14 +91,19 @@ def read_hop(seed_name: str = "wannier90") -> Tuple[List[rn5_type], List[complex
     """
     with open(f"{seed_name}_hr.dat", "r") as hr_file:
         hr_content = hr_file.readlines()
+    num_wan = int(hr_content[1])
     nl_hopping = int(hr_content[2])
     nl_skip = 3 + int(np.ceil(nl_hopping / 15))
+    # Degeneracy of each Wigner-Seitz grid point, by which the matrix elements
+    # should be divided
+    degen = [int(x) for line in hr_content[3:nl_skip] for x in line.split()]
     hop_ind, hop_eng = [], []
-    for line in hr_content[nl_skip:]:
+    for i_h, line in enumerate(hr_content[nl_skip:]):
         data = line.split()
         ind = (int(data[0]), int(data[1]), int(data[2]),
                int(data[3])-1, int(data[4])-1)
         eng = float(data[5]) + 1j * float(data[6])
+        eng /= degen[i_h // num_wan**2]
         hop_ind.append(ind)
         hop_eng.append(eng)
     return hop_ind, hop_eng
-- 
2.43.0


From 1f522bcbdd870217802f504e44ebe92d1977a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 26/45] fix: sum up Wannier90 terms which are moved to the same
 cell

They overwrote each other, depending on their order in the files.
---
 tbplas/adapter/wannier90.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index 43ecef3..c418e23 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -151,23 +151,16 @@ def apply_wsvec(wsvec: dict,
     :param hop_eng: hopping energies in eV
     :return: None
     """
-    for ind_0 in wsvec.keys():
-        # Back up and reset original hopping term
-        ih_0 = hop_ind.index(ind_0)
-        eng_bak = hop_eng[ih_0]
-        hop_eng[ih_0] = 0.0
-
-        # Apply correction vector
-        num_vec = len(wsvec[ind_0])
-        for vec in wsvec[ind_0]:
+    # NOTE: different terms may be moved to the same cell index.
+    hop_new = dict()
+    for ind_0, eng_0 in zip(hop_ind, hop_eng):
+        vec_list = wsvec.get(ind_0, [(0, 0, 0)])
+        for vec in vec_list:
             ind_1 = (ind_0[0] + vec[0], ind_0[1] + vec[1], ind_0[2] + vec[2],
                      ind_0[3], ind_0[4])
-            if ind_1 in hop_ind:
-                ih_1 = hop_ind.index(ind_1)
-                hop_eng[ih_1] = eng_bak / num_vec
-            else:
-                hop_ind.append(ind_1)
-                hop_eng.append(eng_bak / num_vec)
+            hop_new[ind_1] = hop_new.get(ind_1, 0.0) + eng_0 / len(vec_list)
+    hop_ind[:] = hop_new.keys()
+    hop_eng[:] = hop_new.values()
 
 
 def wan2pc(seed_name: str = "wannier90",
-- 
2.43.0


From f4cfd304a4336be42c467881b7c1daa2697488fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:46 +0000
Subject: [PATCH 27/45] fix: do not lock models when the construction of
 supercell or sample fails

---
 tbplas/builder/sample.py | 7 +++++--
 tbplas/builder/super.py  | 8 +++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index 0ac0ec4..2bcb991 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -80,8 +80,6 @@ class Sample(Observable):
                 self._hop_list.append(arg)
             else:
                 raise exc.SampleCompError(i_arg)
-            arg.add_subscriber(f"sample #{id(self)}", self)
-            arg.lock(f"sample #{id(self)}")
 
         # Check closure of inter-hopping instances
         for i_h, hop in enumerate(self._hop_list):
@@ -90,6 +88,11 @@ class Sample(Observable):
             if hop.sc_ket not in self._sc_list:
                 raise exc.SampleClosureError(i_h, "sc_ket")
 
+        # Lock supercells and inter-hopping terms
+        for arg in self._sc_list + self._hop_list:
+            arg.add_subscriber(f"sample #{id(self)}", self)
+            arg.lock(f"sample #{id(self)}")
+
         # Declare arrays
         # The actual initialization will be done on-demand in init_* methods.
         self.orb_eng = None
diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 17c4099..151c678 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -119,10 +119,8 @@ class OrbitalSet(Observable):
         """
         super().__init__()
 
-        # Set and lock the primitive cell
+        # Set the primitive cell
         self._prim_cell = prim_cell
-        self._prim_cell.add_subscriber(f"supercell #{id(self)}", self)
-        self._prim_cell.lock(f"supercell #{id(self)}")
         self._prim_cell.verify_orbitals()
         self._prim_cell.verify_hoppings()
 
@@ -157,6 +155,10 @@ class OrbitalSet(Observable):
         if vacancies is not None:
             self.add_vacancies(vacancies)
 
+        # Lock the primitive cell
+        self._prim_cell.add_subscriber(f"supercell #{id(self)}", self)
+        self._prim_cell.lock(f"supercell #{id(self)}")
+
     def __hash__(self) -> int:
         """Return the hash of this instance."""
         fp = (self._prim_cell, tuple(self._dim), tuple(self._pbc),
-- 
2.43.0


From f78ee560a2c95b59acce1be499ebcf1591fad439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:39 +0000
Subject: [PATCH 28/45] fix: update the arrays of the model before evaluating
 Z2 phases

---
 tbplas/diagonal/z2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index 35397f5..e3e17ef 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -141,6 +141,8 @@ class Z2(DiagSolver):
             phases: (num_kpt, num_occ) float64 array
             phases of WF centers
         """
+        self._update_array()
+
         # Allocate working arrays
         if ka_array is None:
             ka_array = np.linspace(-0.5, 0.5, 200)
-- 
2.43.0


From 40766b20ffefe64d7cd5571369b9ab3ea99fb095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:00 +0000
Subject: [PATCH 29/45] fix: terminate Haydock recursion when the subspace is
 exhausted

---
 tbplas/fortran/propagation.f90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tbplas/fortran/propagation.f90 b/tbplas/fortran/propagation.f90
index cc68b7f..cd74d38 100644
--- a/tbplas/fortran/propagation.f90
+++ b/tbplas/fortran/propagation.f90
@@ -121,11 +121,17 @@ SUBROUTINE Haydock_coef(n1, n_depth, H_csr, H_rescale, coefa, coefb)
     !   p2, n2 -> ni+1
     !   p_buf, n_buf -> H|ni> and mi+1
 
+    ! The recursion terminates if mi+1 vanishes, i.e., the subspace is exhausted.
+    ! The remaining coefficients are zero and have no contribution then.
+    coefa = 0D0
+    coefb = 0D0
+
     ! get initial values for a and b
     n_buf = amv(H_rescale, H_csr, n1)  ! n_buf = H|n1>
     coefa(1) = inner_prod(n1, n_buf)   ! a1 = <n1|H|n1> = <n1|n_buf>
     CALL axpy(-coefa(1), n1, n_buf)    ! m2 = (H - a1)|n1> = |n_buf> - a1|n1>
     coefb(1) = norm(n_buf)             ! b2 = |m2|
+    IF (coefb(1) == 0D0) RETURN
     n2 = n_buf / coefb(1)              ! n2 = m2 / b2
 
     ! initialize pointers
@@ -144,6 +150,7 @@ SUBROUTINE Haydock_coef(n1, n_depth, H_csr, H_rescale, coefa, coefb)
         ! mi+1 = (H - ai)|ni> - bi|ni-1> = n_buf - ai|ni> - bi|ni-1>
         CALL axpbypz(-coefa(i), p2, -coefb(i-1), p1, p_buf)
         coefb(i) = norm(p_buf)             ! bi+1 = |mi+1|
+        IF (coefb(i) == 0D0) EXIT
         p_buf = p_buf / coefb(i)           ! ni+1 = mi+1 / bi+1
 
         ! update pointers
-- 
2.43.0


From 1b7cf6caf188b9969b7af888574fbe6d573af7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:00 +0000
Subject: [PATCH 30/45] fix: keep at least 3 Bessel functions for propagation

---
 tbplas/tbpm/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tbplas/tbpm/solver.py b/tbplas/tbpm/solver.py
index 7dbbbc7..35b6d28 100644
--- a/tbplas/tbpm/solver.py
+++ b/tbplas/tbpm/solver.py
@@ -204,11 +204,12 @@ class Solver(MPIEnv):
         time_scaled = time_step * self._sample.rescale
 
         # Collect bessel function values
+        # NOTE: cheb_wf_timestep requires at least 3 values.
         bessel_series = []
         converged = False
         for i in range(bessel_max):
             bes_val = spec.jv(i, time_scaled)
-            if np.abs(bes_val) > bessel_precision:
+            if i < 3 or np.abs(bes_val) > bessel_precision:
                 bessel_series.append(bes_val)
             else:
                 bes_val_up = spec.jv(i + 1, time_scaled).item()
-- 
2.43.0


From d2dafe856521b6ec900ca2d8a5e975350476cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:39 +0000
Subject: [PATCH 31/45] fix: close Wilson loops with periodic eigenstates

---
 tbplas/diagonal/z2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index e3e17ef..0a42ac3 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -60,7 +60,9 @@ class Z2(DiagSolver):
         :return: (num_orb, num_orb) complex128 array
             eigenstates of the given k-point
         """
-        eigenvalues, eigenstates = self._diag_ham_dense(kpt)
+        # NOTE: eigenstates should be periodic in k-space for closing the loop,
+        # which requires convention 2.
+        eigenvalues, eigenstates = self._diag_ham_dense(kpt, convention=2)
         idx = eigenvalues.argsort()
         return eigenstates[:, idx]
 
-- 
2.43.0


From 47adb40f67f5a678512660659dacdb4a050114bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:49 +0000
Subject: [PATCH 32/45] fix: respect the length of c-axis when reshaping
 graphene cell

---
 tbplas/materials/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/materials/graphene.py b/tbplas/materials/graphene.py
index 7891deb..10ff245 100644
--- a/tbplas/materials/graphene.py
+++ b/tbplas/materials/graphene.py
@@ -66,7 +66,7 @@ def make_graphene_rect(from_scratch: bool = True,
         cell.add_hopping((1, 0), 3, 1, t)
         cell.add_hopping((1, 0), 2, 0, t)
     else:
-        cell = make_graphene_diamond(t=t)
+        cell = make_graphene_diamond(c=c, t=t)
         lat_frac = np.array([[1, 0, 0], [-1, 2, 0], [0, 0, 1]])
         cell = reshape_prim_cell(cell, lat_frac)
     return cell
-- 
2.43.0


From 0f6b608bd7e4ff32da275bc12e88eca5f11912f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:49 +0000
Subject: [PATCH 33/45] fix: direction of complex hopping terms in rectangular
 graphene cell

---
 tbplas/materials/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/materials/graphene.py b/tbplas/materials/graphene.py
index 10ff245..0c35d70 100644
--- a/tbplas/materials/graphene.py
+++ b/tbplas/materials/graphene.py
@@ -61,7 +61,7 @@ def make_graphene_rect(from_scratch: bool = True,
         # Add hopping terms
         cell.add_hopping((0, 0), 0, 2, t)
         cell.add_hopping((0, 0), 2, 3, t)
-        cell.add_hopping((0, 0), 3, 1, t)
+        cell.add_hopping((0, 0), 1, 3, t)
         cell.add_hopping((0, 1), 1, 0, t)
         cell.add_hopping((1, 0), 3, 1, t)
         cell.add_hopping((1, 0), 2, 0, t)
-- 
2.43.0


From 3443a70b48039f551acb2a4aeed9dcd266425d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:21 +0000
Subject: [PATCH 34/45] fix: plot_wfc3d without rn_max failed with a TypeError

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index 88e8070..038690d 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -503,7 +503,7 @@ class Visualizer(MPIEnv):
             k_point = [0, 0, 0]
         k_point = np.array(k_point, dtype=np.float64)
         if rn_max is None:
-            rn_max = np.zeros(3)
+            rn_max = np.zeros(3, dtype=np.int32)
         rn_frac = np.array([(i, j, k)
                             for i in range(-rn_max[0], rn_max[0] + 1)
                             for j in range(-rn_max[1], rn_max[1] + 1)
-- 
2.43.0


From 32fd2616050e33624d10e2b8018df26fea2f97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:21 +0000
Subject: [PATCH 35/45] fix: plot_scalar scrambled the image for num_grid with
 different sizes along x and y

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index 038690d..9238a8a 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -338,7 +338,7 @@ class Visualizer(MPIEnv):
                 x_grid, y_grid = np.meshgrid(x_fi, y_fi)
                 xy_fi = np.c_[x_grid.ravel(), y_grid.ravel()]
                 z_fi = griddata((x, y), z, xy_fi, method="cubic")
-                z_fi = z_fi.reshape(num_grid)
+                z_fi = z_fi.reshape(x_grid.shape)
                 extent = (x_min, x_max, y_min, y_max)
                 img = ax.imshow(z_fi, cmap=cmap, interpolation="none",
                                 origin="lower", extent=extent, **kwargs)
-- 
2.43.0


From 1d8f3e096c6e7a6adc777a12d168b51f276e10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:21 +0000
Subject: [PATCH 36/45] fix: set_cube wrote zero at the nucleus of s orbitals,
 where they are largest

---
 tbplas/cython/atom.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/atom.pyx b/tbplas/cython/atom.pyx
index a0fee2f..029c416 100644
--- a/tbplas/cython/atom.pyx
+++ b/tbplas/cython/atom.pyx
@@ -203,7 +203,7 @@ def set_cube(double [::1] c0, int[::1] qn, double[::1] cube_origin,
             for k in range(num_grid[2]):
                 dz = zmin + res * k - c0[2]
                 r = sqrt(dx2y2 + dz**2)
-                if r < 1.0e-7:
+                if r < 1.0e-7 and l > 0:
                     gridval = 0.0
                 else:
                     gridval = _radial(z, n, l, r) * _ylm(l, m, dx, dy, dz, r) * factor
-- 
2.43.0


From 46e9bb34b1c29949841450044ae0e92dd1dd4f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:24 +0000
Subject: [PATCH 37/45] fix: ParamFit failed for weights given as integers

---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index 8829329..b6fa12b 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -1457,7 +1457,7 @@ class ParamFit(ABC):
             if weights.shape[0] != num_bands:
                 raise ValueError(f"Length of weights should be {num_bands}")
             weights = np.abs(weights)
-            weights /= weights.sum()
+            weights = weights / weights.sum()
             self._weights = weights
 
     @abstractmethod
-- 
2.43.0


From fc7f089ff9bcfd77ce5f48778b3def5c7b819d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:24 +0000
Subject: [PATCH 38/45] fix: ParamFit.fit took the covariance for the status if
 full_output was requested

---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index b6fa12b..711c6ae 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -1505,7 +1505,7 @@ class ParamFit(ABC):
         :raises RuntimeError: if the fitting fails
         """
         result = leastsq(self.estimate_error, params0, **kwargs)
-        params, status = result[0], result[1]
+        params, status = result[0], result[-1]
         if status not in (1, 2, 3, 4):
             raise RuntimeError(f"Fitting failed with status {status}")
         return params
-- 
2.43.0


From 0ea3a6eb09cfb213dd7e6b2036232600bc520db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:24 +0000
Subject: [PATCH 39/45] fix: undefined parameters of DC_conductivity and
 quasi_eigenstates were not detected

---
 tbplas/tbpm/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tbplas/tbpm/config.py b/tbplas/tbpm/config.py
index 5df56a4..b8677bb 100644
--- a/tbplas/tbpm/config.py
+++ b/tbplas/tbpm/config.py
@@ -140,6 +140,8 @@ class Config:
         self._legal_params = {
             'generic': set(self.generic.keys()),
             'LDOS': set(self.LDOS.keys()),
+            'DC_conductivity': set(self.DC_conductivity.keys()),
+            'quasi_eigenstates': set(self.quasi_eigenstates.keys()),
             'dyn_pol': set(self.dyn_pol.keys()),
             'dckb': set(self.dckb.keys())
         }
@@ -161,6 +163,8 @@ class Config:
 
         _check(self.generic, 'generic')
         _check(self.LDOS, 'LDOS')
+        _check(self.DC_conductivity, 'DC_conductivity')
+        _check(self.quasi_eigenstates, 'quasi_eigenstates')
         _check(self.dyn_pol, 'dyn_pol')
         _check(self.dckb, 'dckb')
 
-- 
2.43.0


From 762683adfe8875fc422d095d0f76a5aafa1791df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:49 +0000
Subject: [PATCH 40/45] fix: follow phases which wind around the circle more
 than once

---
 tbplas/diagonal/z2.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index 0a42ac3..f424bdf 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -228,10 +228,11 @@ class Z2(DiagSolver):
                     # value: |phase_m1 - phase_j1 - n * pi|
                     diff_dict = dict()
                     for m, phase_m1 in enumerate(phase_i1_cp):
-                        for n in (-2, 0, 2):
-                            phase_diff = abs(phase_j0 - (phase_m1 + n * pi))
-                            if phase_diff < threshold:
-                                diff_dict[(m, n)] = phase_diff
+                        # Phases may have wound around the circle many times
+                        n = 2 * round((phase_j0 - phase_m1) / (2 * pi))
+                        phase_diff = abs(phase_j0 - (phase_m1 + n * pi))
+                        if phase_diff < threshold:
+                            diff_dict[(m, n)] = phase_diff
 
                     if len(diff_dict) > 0:
                         min_key = self._get_min_key(diff_dict)
-- 
2.43.0


From fae03b1da61f361259ac2c0f402d8b0060fd7aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:49 +0000
Subject: [PATCH 41/45] fix: count crossings at points on the reference value

---
 tbplas/diagonal/z2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index f424bdf..4e4d244 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -299,7 +299,8 @@ class Z2(DiagSolver):
             for ib in range(num_occ):
                 d1 = phases.item(ik, ib) - phase_ref
                 d2 = phases.item(ik+1, ib) - phase_ref
-                if d1 * d2 < 0.0:
+                # Points may fall exactly on the reference value.
+                if (d1 < 0.0) != (d2 < 0.0):
                     num_crossing += 1
         return num_crossing
 
-- 
2.43.0


From d98c7003227e66948c91dc6734a72d439eeca4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:03 +0000
Subject: [PATCH 42/45] fix: arrays of a sample are saved and loaded as one
 consistent set

Saving wrote only what had been initialised, so loading could combine
on-site energies and hopping terms of different scaling factors.
---
 tbplas/builder/sample.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index 2bcb991..a79b0a5 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -229,7 +229,14 @@ class Sample(Observable):
 
         :param data_dir: directory to which data will be saved
         :return: None
+        :raises InterHopVoidError: if any inter-hopping set is empty
+        :raises ValueError: if duplicate terms have been detected in any
+            inter-hopping
         """
+        # The arrays share the scaling factor, so they are saved as a whole.
+        self.init_orb_eng()
+        self.init_orb_pos()
+        self.init_hop()
         if not os.path.exists(data_dir):
             os.mkdir(data_dir)
         if self.orb_eng is not None:
@@ -250,23 +257,21 @@ class Sample(Observable):
         :param data_dir: directory in which data are saved
         :return: None
         """
-        try:
-            self.orb_eng = np.load(f"{data_dir}/orb_eng.npy")
-        except FileNotFoundError:
-            print(f"Ignoring {data_dir}/orb_eng.npy")
         try:
             self.orb_pos = np.load(f"{data_dir}/orb_pos.npy")
         except FileNotFoundError:
             print(f"Ignoring {data_dir}/orb_pos.npy")
         try:
+            orb_eng = np.load(f"{data_dir}/orb_eng.npy")
             hop_i = np.load(f"{data_dir}/hop_i.npy")
             hop_j = np.load(f"{data_dir}/hop_j.npy")
             hop_v = np.load(f"{data_dir}/hop_v.npy")
             dr = np.load(f"{data_dir}/dr.npy")
             rescale = np.load(f"{data_dir}/rescale.npy").item()
         except FileNotFoundError:
-            print(f"Ignoring {data_dir}/hop_i.npy")
+            print(f"Ignoring {data_dir}/orb_eng.npy and {data_dir}/hop_i.npy")
         else:
+            self.orb_eng = orb_eng
             self.hop_i, self.hop_j, self.hop_v = hop_i, hop_j, hop_v
             self.dr = dr
             self._rescale = rescale
-- 
2.43.0


From cf4f263afe25b61f8005691da5abc33027616a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:43 +0000
Subject: [PATCH 43/45] fix: result of orb_id_sc2pc shared memory with the
 numbering of the super cell

---
 tbplas/builder/super.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 151c678..b16ab8f 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -352,7 +352,7 @@ class OrbitalSet(Observable):
         self.sync_array()
         if not (0 <= id_sc < self.num_orb_sc):
             raise exc.IDSCIndexError(id_sc)
-        return self._orb_id_pc[id_sc]
+        return self._orb_id_pc[id_sc].copy()
 
     def orb_id_pc2sc(self, id_pc: Union[id_pc_type, np.ndarray]) -> int:
         """
-- 
2.43.0


From ea260827452bd31896fc65e92541bfff35e2a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:37 +0000
Subject: [PATCH 44/45] fix: interrupted saving of a sample mixed old and new
 arrays

---
 tbplas/builder/sample.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index a79b0a5..b5cf06e 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -239,6 +239,11 @@ class Sample(Observable):
         self.init_hop()
         if not os.path.exists(data_dir):
             os.mkdir(data_dir)
+        # Loading requires the scaling factor, which is saved at last. Remove
+        # the old one, such that old and new arrays will not be mixed if saving
+        # is interrupted.
+        if os.path.exists(f"{data_dir}/rescale.npy"):
+            os.remove(f"{data_dir}/rescale.npy")
         if self.orb_eng is not None:
             np.save(f"{data_dir}/orb_eng", self.orb_eng)
         if self.orb_pos is not None:
-- 
2.43.0


From 78178b2e645212424abd5fe40d4573549f960e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:36 +0000
Subject: [PATCH 45/45] fix: AC correlation function missed its value at time
 zero

---
 tbplas/fortran/tbpm.f90 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tbplas/fortran/tbpm.f90 b/tbplas/fortran/tbpm.f90
index e49df30..fd77fe9 100644
--- a/tbplas/fortran/tbpm.f90
+++ b/tbplas/fortran/tbpm.f90
@@ -301,6 +301,12 @@ SUBROUTINE tbpm_accond(Bes, n_Bes, beta, mu, s_indptr, n_indptr, &
             REAL(corrval(4)), AIMAG(corrval(4))
 #endif
 
+        ! update output array
+        corr(1, 1) = corr(1, 1) + corrval(1) / n_ran_samples
+        corr(2, 1) = corr(2, 1) + corrval(2) / n_ran_samples
+        corr(3, 1) = corr(3, 1) + corrval(3) / n_ran_samples
+        corr(4, 1) = corr(4, 1) + corrval(4) / n_ran_samples
+
         ! iterate over time
         ! Norm check is performed for psi2. It can also be done for psi1_x
         ! and psi1_y.
-- 
2.43.0

