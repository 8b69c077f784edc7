From 1bdaf23c7eb756a816da659c6aa63e77d9f31687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:24 +0000
Subject: [PATCH 01/43] fix: keep a lone reversed bond when double counting is
 removed

bonds_to_add.append() was called with four arguments, so any model that held
only the "negative" orientation of a bond raised TypeError.
---
 src/magnopy/spinham/hamiltonian.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 29df8ca..007afd5 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -352,9 +352,7 @@ class SpinHamiltonian(Crystal):
             else:
                 # If mirrored bond is not in the model, then remember it for addition
                 if (atom2, atom1, (-i, -j, -k)) not in self:
-                    bonds_to_add.append(
-                        atom2, atom1, (-i, -j, -k), parameter=parameter.T
-                    )
+                    bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
                 # Remember the bond for removal
                 bonds_to_remove.append((atom1, atom2, (i, j, k)))
 
-- 
2.43.0


From a96713a0152fdffbffc3f0194688af46ca9f4a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:24 +0000
Subject: [PATCH 02/43] fix: do not drop both orientations of a bond between
 atoms with equal index

Identity of an atom is (name, index). For two atoms with the same index and
different names both (a, b, 0) and (b, a, 0) were selected to stay, each one
scheduled the other for removal and the interaction was lost.
---
 src/magnopy/spinham/hamiltonian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 007afd5..f1c31d0 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -331,7 +331,8 @@ class SpinHamiltonian(Crystal):
         * i > 0
         * i = 0 and j > 0
         * i = 0, j = 0 and k > 0
-        * i = 0, j = 0, k = 0 and atom1.index <= atom2.index
+        * i = 0, j = 0, k = 0 and atom1 precedes atom2 (ordered by index and then by
+          name, since only the combination of two is unique)
         """
 
         bonds_to_remove = []
@@ -343,7 +344,10 @@ class SpinHamiltonian(Crystal):
                 i > 0
                 or (i == 0 and j > 0)
                 or (i == 0 and j == 0 and k > 0)
-                or (i == 0 and j == 0 and k == 0 and atom1.index <= atom2.index)
+                or (
+                    (i == 0 and j == 0 and k == 0)
+                    and (atom1.index, atom1.name) <= (atom2.index, atom2.name)
+                )
             ):
                 # Remember  mirrored bond  for removal, if it is in the model
                 if (atom2, atom1, (-i, -j, -k)) in self:
-- 
2.43.0


From b25bc34631c1fc7afb8011e8e5509189e91f741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:24 +0000
Subject: [PATCH 03/43] fix: keep mirrored bonds consistent when an existing
 bond is rewritten

add_exchange() documents that it rewrites an existing bond, but with double
counting the already present mirrored bond kept the old value, and without
double counting the same pair of spins could enter the model twice.
---
 src/magnopy/spinham/hamiltonian.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index f1c31d0..24c899b 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -716,11 +716,13 @@ class SpinHamiltonian(Crystal):
         # Check for double counting
         try:
             i, j, k = ijk
-            if (
-                self.double_counting
-                and (atom2, atom1, (-i, -j, -k)) not in self._exchange
-            ):
-                self._exchange[(atom2, atom1, (-i, -j, -k))] = parameter.T
+            mirrored_bond = (atom2, atom1, (-i, -j, -k))
+            if mirrored_bond != (atom1, atom2, ijk):
+                if self.double_counting:
+                    self._exchange[mirrored_bond] = parameter.T
+                # Same bond can not be present in the model twice
+                else:
+                    self._exchange.pop(mirrored_bond, None)
         # If it fails, then we do not need to add a mirrored bond, since the notation
         # is not defined yet and it is not clear wether the mirrored bond has to
         # be added or not
-- 
2.43.0


From 0f9ce2008996d31e6f2a3fa0e4f2a94f56e6692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:24 +0000
Subject: [PATCH 04/43] fix: remove_atom() with double counting

Removal of a bond removes its mirrored bond as well, the attempt to remove the
latter for the second time raised KeyError and left the model half-updated.
---
 src/magnopy/spinham/hamiltonian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 24c899b..97ee2f7 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -958,7 +958,9 @@ class SpinHamiltonian(Crystal):
         for parameter in parameters_for_removal:
             # Parameter has different type (tuple or atom) but the same syntax
             # works for both, see __delitem__ for details
-            del self[parameter]
+            # With double counting the mirrored bond is already removed
+            if parameter in self:
+                del self[parameter]
 
         # Remove an atom from the crystal
         super().remove_atom(atom)
-- 
2.43.0


From 273513aee4a629fbaeb8a198919ce2235d348d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:24 +0000
Subject: [PATCH 05/43] fix: remove_on_site() with the name of the atom

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 97ee2f7..021c642 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -820,7 +820,7 @@ class SpinHamiltonian(Crystal):
 
         # If atom is a string, get the atom object
         if isinstance(atom, str):
-            atom1 = self.get_atom(atom)
+            atom = self.get_atom(atom)
 
         try:
             del self._on_site[atom]
-- 
2.43.0


From c5458f61cb86bcea66bdd41b3f926ed8b9f3e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:24 +0000
Subject: [PATCH 06/43] fix: do not share parameters between bonds and with the
 caller

Change of the notation scales the parameters in place. If one MatrixParameter
was given for several bonds, then it was scaled several times; the object of
the caller was changed as well.
---
 src/magnopy/spinham/hamiltonian.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 021c642..d7598bc 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -710,6 +710,10 @@ class SpinHamiltonian(Crystal):
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
+        # Parameter is rescaled when the notation changes, thus it can not be shared
+        # with other bonds or with the code that provided it.
+        else:
+            parameter = deepcopy(parameter)
 
         self._exchange[(atom1, atom2, ijk)] = parameter
 
@@ -758,7 +762,7 @@ class SpinHamiltonian(Crystal):
         except KeyError:
             if raise_if_no_bond:
                 raise KeyError(
-                    f"Bond ({atom2.fullname}, {atom2.fullname}, {ijk}) "
+                    f"Bond ({atom1.fullname}, {atom2.fullname}, {ijk}) "
                     + "is not present in the Hamiltonian."
                 )
 
@@ -803,6 +807,10 @@ class SpinHamiltonian(Crystal):
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
+        # Parameter is rescaled when the notation changes, thus it can not be shared
+        # with other atoms or with the code that provided it.
+        else:
+            parameter = deepcopy(parameter)
 
         self._on_site[atom] = parameter
 
-- 
2.43.0


From bf84df5fcad4fb9fc46cfb0ae534c62700b15ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:24 +0000
Subject: [PATCH 07/43] fix: scale factor of the on-site parameters in
 exchange_like

On-site term is of * S A S, in order to be written as xf * S A' S it has to be
A' = A * of / xf. The inverse ratio was used.
---
 src/magnopy/spinham/hamiltonian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index d7598bc..d7f28fc 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -122,7 +122,7 @@ class SpinHamiltonian(Crystal):
         * On-site parameters: ``atom, atom, (0,0,0), parameter``
 
         On-site parameters are scaled with the factor
-        :py:attr:`.exchange_factor`/:py:attr:`.on_site_factor`
+        :py:attr:`.on_site_factor`/:py:attr:`.exchange_factor`
 
         It is an iterator.
         """
@@ -1064,7 +1064,7 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.exchange_factor / spinham.on_site_factor
+        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
@@ -1078,7 +1078,7 @@ class _SpinHamiltonianExchangeLikeIterator:
         elif self.index2 < self.length2:
             atom1, atom2, ijk = self.iterator2.__next__()
             result = (atom1, atom2, ijk, self.container2[atom1, atom2, ijk])
-            self.index1 += 1
+            self.index2 += 1
             return result
         raise StopIteration
 
-- 
2.43.0


From 041796cefa46088dc73c447c23170dc74f9c986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:24 +0000
Subject: [PATCH 08/43] fix: SpinHamiltonian.crystal shares no atoms with the
 Hamiltonian

It is documented to be an independent instance, but the Atom objects were
shared: a change of the atom of the crystal changed the Hamiltonian.
---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index d7f28fc..7a74652 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -991,7 +991,7 @@ class SpinHamiltonian(Crystal):
         --------
         Crystal
         """
-        return Crystal(self.lattice, self.atoms)
+        return Crystal(self.lattice, deepcopy(self.atoms))
 
 
 class _SpinHamiltonianExchangeIterator:
-- 
2.43.0


From a2e52ee65a3ee93887ac612b869314578c0d9141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:10 +0000
Subject: [PATCH 09/43] fix: Energy of the Hamiltonian in any notation

Energy kept the live parameters of the given Hamiltonian: when the original
notation had no double counting, restoring it doubled the parameters stored in
Energy, and every later change of the Hamiltonian changed Energy as well.
The spin was multiplied in for the normalized spins too. Use a copy of the
Hamiltonian in the notation that is assumed by the energy functions.
---
 src/magnopy/spinham/energy.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 8141c8c..51be531 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -547,6 +547,14 @@ class Energy:
     """
 
     def __init__(self, spinham: SpinHamiltonian):
+        # Work with the copy, in order to be independent from the given Hamiltonian
+        spinham = spinham.copy()
+
+        # Force the notation that is expected by the energy functions: spins are
+        # explicit (not absorbed in the parameters) and double counting is present.
+        spinham.spin_normalized = False
+        spinham.double_counting = True
+
         # Parameters of the Hamiltonian, private
         self._factor = spinham.exchange_factor
         self._atom_indices = dict(
@@ -557,10 +565,6 @@ class Energy:
         self._g_factors = [atom.g_factor for atom in spinham.magnetic_atoms]
         self._spins = [atom.spin for atom in spinham.magnetic_atoms]
 
-        # Force double counting notation
-        previous_dc = spinham.double_counting
-        spinham.double_counting = True
-
         # Get all bonds of the Hamiltonian.
         self._bonds = []
         for atom1, atom2, R, J in spinham.exchange_like:
@@ -569,9 +573,6 @@ class Energy:
             d = R @ spinham.cell
             self._bonds.append([i, j, d, J])
 
-        # Return original noatation of SpinHamiltonian
-        spinham.double_counting = previous_dc
-
         # Minimisation settings, exposed to public as properties
         self._m = 10
 
-- 
2.43.0


From 131aa15f2095dd5c52346c6d896994d58627e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:10 +0000
Subject: [PATCH 10/43] fix: include spin values in the Zeeman energy

Energy in the magnetic field is mu_B * sum(g_i * S_i * (h, e_i)), value of the
spin was missing.
---
 src/magnopy/spinham/energy.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 51be531..0ec41eb 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1085,7 +1085,11 @@ class Energy:
         # Compute zeeman energy
         if self.magnetic_field is not None:
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, spin_orientation
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                spin_orientation,
             )
 
         return energy
@@ -1203,7 +1207,11 @@ class Energy:
                 "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
             )
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
@@ -1324,7 +1332,11 @@ class Energy:
                 "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
             )
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
-- 
2.43.0


From de3d5685e6e4f263dc796d17b8f3ec7ddc911c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:10 +0000
Subject: [PATCH 11/43] fix: Zeeman energy of the cone states

Only the projection of the spin on the cone axis survives the lattice average.
The projector is (1 + K^2), identity matrix was added to it twice.
---
 src/magnopy/spinham/energy.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 0ec41eb..0d96049 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1203,9 +1203,7 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
                 "i,i,j,ij",
                 self._g_factors,
@@ -1328,9 +1326,7 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
                 "i,i,j,ij",
                 self._g_factors,
-- 
2.43.0


From ba2b59da527d3951521dc77c2f99d46c9fbb7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:10 +0000
Subject: [PATCH 12/43] fix: wolfe_c2 returned the value of wolfe_c1

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 0d96049..23810ca 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -674,7 +674,7 @@ class Energy:
         c2 : float
         """
 
-        return self._wolfe_c1
+        return self._wolfe_c2
 
     @wolfe_c2.setter
     def wolfe_c2(self, new_value):
-- 
2.43.0


From 74a24879b0791c81b0b4a46bb55389b27c2797a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:10 +0000
Subject: [PATCH 13/43] fix: setters of Energy.spins and Energy.g_factors

Every assignment raised TypeError (isinstance() with one argument); half-integer
spins and non-integer g-factors would have been truncated to integers.
---
 src/magnopy/spinham/energy.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 23810ca..cd36a2c 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -739,9 +739,12 @@ class Energy:
 
     @g_factors.setter
     def g_factors(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New g factors must be an Iterable: {new_value}")
 
+        # Do not modify the input
+        new_value = list(new_value)
+
         if not len(new_value) == len(self._spins):
             raise ValueError(
                 f"Expecten {len(self._spins)} g factors, got {len(new_value)}"
@@ -749,11 +752,11 @@ class Energy:
 
         for i, g_factor in enumerate(new_value):
             try:
-                new_value[i] = int(g_factor)
+                new_value[i] = float(g_factor)
             except:
                 raise ValueError(
                     f"One of the new g_factors (index {i}) is not "
-                    f"an integer:{g_factor}."
+                    f"a float:{g_factor}."
                 )
         self._g_factors = new_value
 
@@ -771,18 +774,21 @@ class Energy:
 
     @spins.setter
     def spins(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New spins must be an Iterable: {new_value}")
 
+        # Do not modify the input
+        new_value = list(new_value)
+
         if not len(new_value) == len(self._spins):
             raise ValueError(f"Expected {len(self._spins)} spins, got {len(new_value)}")
 
         for i, spin in enumerate(new_value):
             try:
-                new_value[i] = int(spin)
+                new_value[i] = float(spin)
             except:
                 raise ValueError(
-                    f"One of the new spins (index {i}) is not " f"an integer:{spin}."
+                    f"One of the new spins (index {i}) is not " f"a float:{spin}."
                 )
         self._spins = new_value
 
-- 
2.43.0


From a3cc6e9cbcd872deb8b4f45a28df50fd9314f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:10 +0000
Subject: [PATCH 14/43] fix: cone axis in the gradient of the antiferro case

Gradient vector of the antiferro case has 3*I + 3 elements, last three belong to
the cone axis. They were written over the elements of the last spin and the
update of the coordinates ignored the last block: cone axis was never optimized.
---
 src/magnopy/spinham/energy.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index cd36a2c..1ef2773 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -235,16 +235,16 @@ def _update_x_antiferro(x, search_direction, step=1):
             * 0 - I-1:  Orientation of the spin vectors
             * I: cone axis
         Second element: spiral vector
-    search_direction : (I*3+6,) :numpy:`ndarray`
+    search_direction : (I*3+3,) :numpy:`ndarray`
         Search direction computed in L-BFGS step
     step : float
         Size of the step along the search direction.
     """
     x_0 = x[0].copy()
     x_1 = x[1]
-    a12 = search_direction[:-3:3] * step
-    a13 = search_direction[1:-3:3] * step
-    a23 = search_direction[2:-3:3] * step
+    a12 = search_direction[::3] * step
+    a13 = search_direction[1::3] * step
+    a23 = search_direction[2::3] * step
 
     thetas = np.sqrt(a12**2 + a13**2 + a23**2)
 
@@ -915,9 +915,9 @@ class Energy:
         t = np.cross(cone_axis, gradient)
         for j in range(0, 3):
             torques[-1][j] = t[j]
-        gradient_vector[-6] = t[2]
-        gradient_vector[-5] = -t[1]
-        gradient_vector[-4] = t[0]
+        gradient_vector[-3] = t[2]
+        gradient_vector[-2] = -t[1]
+        gradient_vector[-1] = t[0]
 
         if return_results:
             return gradient_vector, torques
-- 
2.43.0


From f3efbf489d105e595b28a8d8455b47b5e72034ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:10 +0000
Subject: [PATCH 15/43] fix: direction of the step for the spiral vector

Spins and cone axis are rotated against the gradient for positive step, spiral
vector was moved along the gradient, i.e. towards higher energy.
---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 1ef2773..aeef349 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -305,7 +305,7 @@ def _update_x_spiral(x, search_direction, step=1):
             + (1 - np.cos(theta)) * r * (r @ x_0[i])
         )
 
-    x_1 += search_direction[-3:] * step
+    x_1 -= search_direction[-3:] * step
 
     return [x_0, x_1]
 
-- 
2.43.0


From 1c903d072c93eac9548098f9ebcae988dab3cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:10 +0000
Subject: [PATCH 16/43] fix: names in the error branches of the energy
 minimization

---
 src/magnopy/spinham/energy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index aeef349..1bd9848 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -56,7 +56,7 @@ def _starting_ferro(n_spins, initial_guess=None):
         try:
             spin_orientation = np.array(initial_guess, dtype=float)
         except:
-            raise ValueError(f"spin_orientation is not array-like: {spin_orientation}")
+            raise ValueError(f"spin_orientation is not array-like: {initial_guess}")
 
         if spin_orientation.shape[-1] != 3:
             raise ValueError(
@@ -417,7 +417,7 @@ def _default_history_processor_ferro(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11}"
 
         for i in range(nspins):
@@ -447,7 +447,7 @@ def _default_history_processor_antiferro(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11} {'Torque_n':>11}"
 
         for i in range(nspins):
@@ -487,7 +487,7 @@ def _default_history_processor_spiral(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11} {'Torque_n':>11}"
 
         for i in range(nspins):
-- 
2.43.0


From 4239996fe5f0bae86c21e69f52b78ccb0369b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 17/43] fix: transformation matrix of solve_via_colpa() for
 degenerate modes

General eigensolver does not return orthogonal eigenvectors for repeated
eigenvalues, thus E != (G^dag)^-1 D G^-1 and G was not para-unitary for the
degenerate magnon modes. The matrix is Hermitian, use eigh().
---
 src/magnopy/magnons/diagonalization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/diagonalization.py b/src/magnopy/magnons/diagonalization.py
index 5d16eff..629b49f 100644
--- a/src/magnopy/magnons/diagonalization.py
+++ b/src/magnopy/magnons/diagonalization.py
@@ -129,7 +129,8 @@ def solve_via_colpa(D):
     except LinAlgError:
         raise ColpaFailed
 
-    L, U = np.linalg.eig(K @ g @ np.conjugate(K).T)
+    # The matrix is Hermitian, eigenvectors have to be orthonormal (U is unitary)
+    L, U = np.linalg.eigh(K @ g @ np.conjugate(K).T)
 
     # Sort with respect to L, in descending order
     U = np.concatenate((L[:, None], U.T), axis=1).T
-- 
2.43.0


From 06696ab9cd9462e9231579fd445708a6cf2f1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 18/43] fix: units of the exchange parameters in the text model
 file

Conversion factor was computed and passed to _read_bond(), but never used;
for Joule it was computed from an undefined name.
---
 src/magnopy/io/txt/internal.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 325cd5a..265c6f4 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -654,7 +654,7 @@ def _read_exchange(lines, spinham):
             + f"Will be converted to {ENERGY_NAME}.",
         )
     elif units.startswith("j"):
-        units_conversion = 1 / ENERGY_UNITS
+        units_conversion = 1 / ENERGY
         _logger.info(
             "Exchange parameters are provided in Joule. "
             + f" Will be converted to {ENERGY_NAME}.",
@@ -750,17 +750,19 @@ def _read_bond(lines, spinham: SpinHamiltonian, units_conversion=1):
     i = 1
     while i < len(lines):
         if lines[i].lower().startswith("i"):
-            iso = float(lines[i].split()[1])
+            iso = float(lines[i].split()[1]) * units_conversion
         if lines[i].lower().startswith("d"):
-            dmi = [float(x) for x in lines[i].split()[1:]]
+            dmi = [float(x) * units_conversion for x in lines[i].split()[1:]]
         if lines[i].lower().startswith("s"):
-            Sxx, Syy, Sxy, Sxz, Syz = [float(x) for x in lines[i].split()[1:]]
+            Sxx, Syy, Sxy, Sxz, Syz = [
+                float(x) * units_conversion for x in lines[i].split()[1:]
+            ]
             symm = [[Sxx, Sxy, Sxz], [Sxy, Syy, Syz], [Sxz, Syz, -Sxx - Syy]]
         if lines[i].lower().startswith("m"):
             matrix = np.zeros((3, 3), dtype=float)
             for j in range(3):
                 i += 1
-                matrix[j] = [float(x) for x in lines[i].split()]
+                matrix[j] = [float(x) * units_conversion for x in lines[i].split()]
         spinham.add_exchange(
             name1, name2, R, matrix=matrix, iso=iso, aniso=symm, dmi=dmi
         )
-- 
2.43.0


From 61193b3c7cdf34c3a07fd2c6270d3a7435aaac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 19/43] fix: coordinates of the spiral vector in the text model
 file

SpinHamiltonian.spiral_vector (and the dump to .txt and .hdf5) is in relative
coordinates, the reader converted relative vector to the absolute one.
---
 src/magnopy/io/txt/internal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 265c6f4..ffac126 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -1018,8 +1018,9 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
 
     q = [float(x) for x in lines[1].split()]
 
-    if relative:
-        q = q @ spinham.reciprocal_cell
+    # Spin Hamiltonian stores the spiral vector in the relative coordinates
+    if not relative:
+        q = absolute_to_relative(q, spinham.reciprocal_cell)
 
     spinham.spiral_vector = q
 
-- 
2.43.0


From 22357a3c9ae34f7dde80151d7b5e5aae9219f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 20/43] fix: save_filtered of the text model file

Module os was not imported, and the prefix was added to the whole path instead
of the name of the file.
---
 src/magnopy/io/txt/internal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index ffac126..c85a59c 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -17,6 +17,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 import logging
+import os
 
 import numpy as np
 from wulfric import TORADIANS, Atom, absolute_to_relative, volume
@@ -1088,7 +1089,8 @@ def _filter_txt_file(filename=None, lines=None, save_filtered=False):
 
     # Save filtered copy of the file
     if save_filtered:
-        filtered_filename = f"filtered_{filename}"
+        head, tail = os.path.split(filename)
+        filtered_filename = os.path.join(head, f"filtered_{tail}")
         with open(filtered_filename, "w", encoding="utf-8") as f:
             f.write("\n".join(filtered_lines))
         _logger.debug(
-- 
2.43.0


From 28af79be165a5e91ed7110b9e78d5908bd34f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 21/43] fix: spin vector as angles in the text model file

vector_to_angles() raised an error on every call (misspelled names) and lost the
sign of the y component; angles were written with the letter prefix, that is
not a number and can not be read back.
---
 src/magnopy/geometry.py        | 17 +++++++++--------
 src/magnopy/io/txt/internal.py |  4 ++--
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/magnopy/geometry.py b/src/magnopy/geometry.py
index d162c81..6f15552 100644
--- a/src/magnopy/geometry.py
+++ b/src/magnopy/geometry.py
@@ -40,20 +40,21 @@ def vector_to_angles(vector, in_degrees=True):
         Whether to return angles in degrees or radians.
 
     """
-    modulus = np.linalg.notm(vector)
+    vector = np.array(vector, dtype=float)
+    modulus = np.linalg.norm(vector)
 
-    if np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
+    # Direction of zero vector is not defined
+    if modulus == 0:
+        polar, azimuthal = 0, np.pi / 2
+    elif np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
         polar, azimuthal = 0, np.pi / 2
     elif np.allclose(vector / modulus, [0.0, 0.0, -1.0]):
         polar, azimuthal = np.pi, np.pi / 2
     else:
-        polar = np.arccos(np.dot(vector, [0, 0, 1]) / modulus)
-        xy_projection = np.array([vector[0], vector[1], 0])
-        azimuthal = np.arccos(
-            np.dot(xy_projection, [1, 0, 0]) / np.linalg.norm(xy_projection)
-        )
+        polar = np.arccos(np.clip(vector[2] / modulus, -1, 1))
+        azimuthal = np.arctan2(vector[1], vector[0])
 
-    if in_degreees:
+    if in_degrees:
         return modulus, polar * TODEGREES, azimuthal * TODEGREES
     else:
         return modulus, polar, azimuthal
diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index c85a59c..4e3a254 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -213,8 +213,8 @@ def dump_spinham_txt(
                 S, theta, phi = vector_to_angles(atom.spin_vector, in_degrees=True)
                 text[-1] += " " + " ".join(
                     [
-                        f"t{theta:8.4f}",
-                        f"p{phi:8.4f}",
+                        f"{theta:8.4f}",
+                        f"{phi:8.4f}",
                         f"{S:8.4f}",
                     ]
                 )
-- 
2.43.0


From 3823f06bc6a8b405a7f42798ed121b264018d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 22/43] fix: order of atoms in the .hdf5 model file

Groups are iterated in alphabetical order, thus for ten and more atoms the order
and the indices of atoms were changed by dump and load.
---
 src/magnopy/io/hdf5/internal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c462a88..7565820 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -129,7 +129,8 @@ def load_spinham_hdf5(
 
     # Read the atoms
     atoms = root_group["atoms"]
-    for index in atoms:
+    # By default the groups are in alphabetical order ("1", "10", "2", ...)
+    for index in sorted(atoms, key=int):
         atom = atoms[index]
         name = atom["name"][()].decode("utf-8")
         if _verify_atom_name(name, line_index="hdf5 file"):
-- 
2.43.0


From 5f18a3cf5565c6c884167f4c62c50dc7ade7e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:48 +0000
Subject: [PATCH 23/43] fix: dump_ucf() leaves the spin Hamiltonian intact

The notation was changed and restored in place: bonds were reordered/rescaled
with the round-off errors and, if custom_mask raised an error, then the
Hamiltonian stayed in the notation of Vampire.
---
 src/magnopy/io/txt/vampire.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 6d457ad..ac3d730 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -203,7 +203,8 @@ def dump_ucf(
     """
     if materials is None:
         materials = [i for i in range(len(spinham.magnetic_atoms))]
-    original_notation = spinham.notation
+    # Do not modify the given Hamiltonian
+    spinham = spinham.copy()
     spinham.notation = "vampire"
     if nologo:
         text = []
@@ -245,8 +246,6 @@ def dump_ucf(
         )
         IID += 1
 
-    spinham.notation = original_notation
-
     text = "\n".join(text)
 
     if filename is None:
-- 
2.43.0


From 7c20754eea6c97a42b6d482c202decaf4708ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:48 +0000
Subject: [PATCH 24/43] fix: initial spin direction in the .mat file of Vampire

Atom has no _spin_direction attribute, every call raised AttributeError.
---
 src/magnopy/io/txt/vampire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index ac3d730..f0b3e29 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -140,7 +140,7 @@ def dump_mat(spinham: SpinHamiltonian, filename=None, materials=None, nologo=Fal
             text.append(f"material[{m_i}]:material-name = {atom.name}")
             text.append(f"material[{m_i}]:material-element = {atom.type}")
             text.append(f"material[{m_i}]:atomic-spin-moment={atom.spin} ! muB")
-            if atom._spin_direction is not None:
+            if atom.spin > 0:
                 text.append(
                     f"material[{m_i}]:initial-spin-direction = {atom.spin_direction[0]:.8f},{atom.spin_direction[1]:.8f},{atom.spin_direction[2]:.8f}"
                 )
-- 
2.43.0


From aef27424cbbe00aaae6f8d5980a946fceb72313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:33 +0000
Subject: [PATCH 25/43] fix: shift of a negative semidefinite magnon matrix

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 0bb75ce..1adcf57 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -321,7 +321,7 @@ class MagnonDispersion:
                     # Try to solve for negative semidefinite matrix
                     try:
                         omegas, G = solve_via_colpa(
-                            -h - np.diag(1e-8 * np.ones(h.shape[0]))
+                            -h + np.diag(1e-8 * np.ones(h.shape[0]))
                         )
                         omegas *= -1
                         G *= -1
-- 
2.43.0


From 0a25fd276c60cd180a0105b4c01dde3d01a6a524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 26/43] fix: refuse an atom row that is too short to have a
 name

---
 src/magnopy/io/txt/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0a6f93b..f55c9de 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -763,7 +763,7 @@ def _verify_atoms(lines, line_indices):
             )
 
         # Check atom's names if any
-        if name_index is not None:
+        if name_index is not None and name_index < len(line):
             errors = errors or _verify_atom_name(line[name_index], line_indices[i])
             allowed_atoms.add(line[name_index])
 
-- 
2.43.0


From 6d466e72f6da92c7ca30d4b161a7acefc8df0f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:06 +0000
Subject: [PATCH 27/43] fix: refuse a model file with parameters and without
 notation

---
 src/magnopy/io/txt/verify.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index f55c9de..1c88852 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1491,6 +1491,13 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
             errors = True
             _logger.error(f'File: failed to find required section "{r_section}"')
 
+    # Parameters can not be understood without the notation
+    if (
+        "exchange" in found_sections or "on-site" in found_sections
+    ) and "notation" not in found_sections:
+        errors = True
+        _logger.error('File: failed to find "notation" section')
+
     # Verify atoms section in advance, since we need to know a set of allowed atoms.
     if "atoms" in found_sections:
         allowed_atoms, atoms_errors = _verify_atoms(
-- 
2.43.0


From 109e6b3f5c01dd6de7c3a0262be23964cabc99e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:10 +0000
Subject: [PATCH 28/43] fix: read atoms with data marked as missing

---
 src/magnopy/io/txt/internal.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 4e3a254..be2cc01 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -488,8 +488,15 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
         line = line.split()
         name = line[data_header.index("name")]
 
+        # Whether the data are given for this atom, "-" marks the missing ones
+        def is_given(*keywords):
+            return all(
+                keyword in data_header and line[data_header.index(keyword)] != "-"
+                for keyword in keywords
+            )
+
         # Find the coordinates
-        if "r1" in data_header:
+        if is_given("r1", "r2", "r3"):
             relative = True
             _logger.info(f"Atom {name}: Relative coordinates are detected.")
             position = (
@@ -511,25 +518,25 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
             )
 
         # Find charge
-        if "q" in data_header:
+        if is_given("q"):
             charge = float(line[data_header.index("q")])
         else:
             charge = 0
 
         # Find g factor
-        if "g" in data_header:
+        if is_given("g"):
             g = float(line[data_header.index("g")])
         else:
             g = 2.0
 
         # Find spin
-        if "sx" in data_header:
+        if is_given("sx", "sy", "sz"):
             spin = (
                 float(line[data_header.index("sx")]),
                 float(line[data_header.index("sy")]),
                 float(line[data_header.index("sz")]),
             )
-        elif "sp" in data_header:
+        elif is_given("sp", "st", "s"):
             phi = float(line[data_header.index("sp")])
             theta = float(line[data_header.index("st")])
             s = float(line[data_header.index("s")])
@@ -538,7 +545,7 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
                 s * np.sin(theta * TORADIANS) * np.sin(phi * TORADIANS),
                 s * np.cos(theta * TORADIANS),
             ]
-        elif "s" in data_header:
+        elif is_given("s"):
             spin = (
                 0,
                 0,
-- 
2.43.0


From 205fb86c8d8d6c96fcd9f89957160f0df78afb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:28 +0000
Subject: [PATCH 29/43] fix: absolute spiral vector of a model file with the
 cell in Bohr

---
 src/magnopy/io/txt/internal.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index be2cc01..a821b06 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -966,7 +966,7 @@ def _read_cone_axis(lines, spinham: SpinHamiltonian):
     return spinham
 
 
-def _read_spiral_vector(lines, spinham: SpinHamiltonian):
+def _read_spiral_vector(lines, spinham: SpinHamiltonian, units_conversion=1):
     R"""
     Read information from the spiral-vector section as described in the documentation.
 
@@ -990,6 +990,9 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
         Parameters section of the input file.
     spinham : :py:class:`.SpinHamiltonian`
         Spin Hamiltonian, where the data are saved.
+    units_conversion : float, default 1
+        Length unit of the cell section in the default units of magnopy. Absolute
+        coordinates are given in the inverse of that unit.
 
     Returns
     -------
@@ -1028,6 +1031,7 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
 
     # Spin Hamiltonian stores the spiral vector in the relative coordinates
     if not relative:
+        q = np.array(q, dtype=float) / units_conversion
         q = absolute_to_relative(q, spinham.reciprocal_cell)
 
     spinham.spiral_vector = q
@@ -1167,6 +1171,14 @@ def load_spinham_txt(filename, save_filtered=False, verbose=False) -> SpinHamilt
 
     # If present read spiral-vector
     if "spiral-vector" in sections:
-        _read_spiral_vector(lines[slice(*sections["spiral-vector"])], spinham)
+        # Absolute coordinates are given in the units of the cell section
+        cell_header = lines[sections["cell"][0]].lower().split()
+        if len(cell_header) == 2 and cell_header[1].startswith("b"):
+            units_conversion = BOHR_RADIUS / LENGTH
+        else:
+            units_conversion = ANGSTROM / LENGTH
+        _read_spiral_vector(
+            lines[slice(*sections["spiral-vector"])], spinham, units_conversion
+        )
 
     return spinham
-- 
2.43.0


From 9342a283e2db6a0abfc0e91deaab37552fb74f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:14 +0000
Subject: [PATCH 30/43] fix: zero cone axis of a model file was stored as NaN

---
 src/magnopy/io/txt/internal.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index a821b06..a90ee38 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -959,7 +959,6 @@ def _read_cone_axis(lines, spinham: SpinHamiltonian):
     else:
         if relative:
             n = n @ spinham.cell
-        n /= np.linalg.norm(n)
 
     spinham.cone_axis = n
 
-- 
2.43.0


From cf78ff13ce0e378f85a5a712da51ccdcf12e867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:13 +0000
Subject: [PATCH 31/43] fix: atom without a position passed the verification of
 the model file

---
 src/magnopy/io/txt/verify.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 1c88852..397af7a 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -785,6 +785,23 @@ def _verify_atoms(lines, line_indices):
                     )
                 )
 
+        # Position can not be missing
+        given = {
+            keyword
+            for keyword, block in zip(lines[1].lower().split(), line)
+            if block != "-"
+        }
+        if not ({"r1", "r2", "r3"} <= given or {"x", "y", "z"} <= given):
+            errors = True
+            _logger.error(
+                " ".join(
+                    [
+                        f"Line {line_indices[i]}: expected to have a position of the",
+                        f'atom (either r1, r2, r3 or x, y, z), got "{lines[i]}"',
+                    ]
+                )
+            )
+
     if len(allowed_atoms) != len(lines) - 2:
         errors = True
         _logger.error(
-- 
2.43.0


From 8c2717d0d91a07672d1261a4036b234d05dfdd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:03 +0000
Subject: [PATCH 32/43] fix: magnetic moment of the material in the Vampire
 file is g*S Bohr magnetons

---
 src/magnopy/io/txt/vampire.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index f0b3e29..61bcd78 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -139,7 +139,9 @@ def dump_mat(spinham: SpinHamiltonian, filename=None, materials=None, nologo=Fal
             text.append("#---------------------------------------------------")
             text.append(f"material[{m_i}]:material-name = {atom.name}")
             text.append(f"material[{m_i}]:material-element = {atom.type}")
-            text.append(f"material[{m_i}]:atomic-spin-moment={atom.spin} ! muB")
+            text.append(
+                f"material[{m_i}]:atomic-spin-moment={abs(atom.g_factor)*atom.spin} ! muB"
+            )
             if atom.spin > 0:
                 text.append(
                     f"material[{m_i}]:initial-spin-direction = {atom.spin_direction[0]:.8f},{atom.spin_direction[1]:.8f},{atom.spin_direction[2]:.8f}"
-- 
2.43.0


From a0e07667b8b181d948475e87ff74792ad3c64bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:59 +0000
Subject: [PATCH 33/43] fix: vectors with missing components (None) were stored
 as NaN

---
 src/magnopy/spinham/energy.py      | 6 ++++++
 src/magnopy/spinham/hamiltonian.py | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 1bd9848..4a199e5 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -719,6 +719,12 @@ class Energy:
                     f"got {new_field.shape}"
                 )
 
+            # None is converted to NaN by numpy
+            if np.isnan(new_field).any():
+                raise ValueError(
+                    "Components of the new magnetic field have to be numbers"
+                )
+
             self._magnetic_field = new_field
 
     ################################################################################
diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 7a74652..f4b784c 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -157,6 +157,10 @@ class SpinHamiltonian(Crystal):
                 f"New spiral vector has to be a 3 component vector, got {new_vector.shape}"
             )
 
+        # None is converted to NaN by numpy
+        if np.isnan(new_vector).any():
+            raise ValueError("Components of the new spiral vector have to be numbers")
+
         self._spiral_vector = new_vector
 
     @property
@@ -184,6 +188,10 @@ class SpinHamiltonian(Crystal):
                 f"New axis has to be a 3 component vector, got {new_axis.shape}"
             )
 
+        # None is converted to NaN by numpy
+        if np.isnan(new_axis).any():
+            raise ValueError("Components of the new axis have to be numbers")
+
         if np.allclose(new_axis, np.zeros(3)):
             raise ValueError("New cone axis can not be a zero vector")
 
-- 
2.43.0


From 33cc0190826d8d8b5158c16b0b0f30cfea435b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 34/43] fix: standardize() left the lattice vectors of the
 bonds in the basis of the old cell

---
 src/magnopy/spinham/hamiltonian.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index f4b784c..1414eb7 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -981,6 +981,29 @@ class SpinHamiltonian(Crystal):
         # Remove an atom from the crystal
         super().remove_atom(atom)
 
+    def standardize(self):
+        r"""
+        Standardize the unit cell.
+
+        The lattice vectors of the bonds are rewritten in the basis of the standardized
+        cell together with the positions of atoms, therefore, every bond still connects
+        the same two sites.
+
+        See Also
+        --------
+        Crystal.standardize
+        """
+
+        # Relative coordinates transform as S @ r
+        S = self.S_matrix
+
+        super().standardize()
+
+        self._exchange = {
+            (atom1, atom2, tuple(int(i) for i in np.rint(S @ ijk))): parameter
+            for (atom1, atom2, ijk), parameter in self._exchange.items()
+        }
+
     @property
     def crystal(self) -> Crystal:
         r"""
-- 
2.43.0


From 2d32501ade4fb49ee9461d3c0934b8c4fc0ae333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:02 +0000
Subject: [PATCH 35/43] fix: search directions of the minimisation were not
 those of the L-BFGS algorithm

---
 src/magnopy/spinham/energy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 4a199e5..21d16c4 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1712,7 +1712,8 @@ class Energy:
             self._gamma = np.zeros((self._m), dtype=float)
             search_direction = gradient_vector
         else:
-            self._d_vec[n] = previous_lambda * previous_search_direction
+            # Note: the steps are made against the search direction
+            self._d_vec[n] = -previous_lambda * previous_search_direction
             self._y_vec[n] = gradient_vector - previous_gradient_vector
             self._rho[n] = 1 / (self._d_vec[n] @ self._y_vec[n])
 
@@ -1726,11 +1727,11 @@ class Energy:
 
             q = gradient_vector.copy()
 
-            for l in range(self._m - 1, -1):
+            for l in range(self._m - 1, -1, -1):
                 j = (l + n + 1) % self._m
                 self._gamma[j] = self._rho[j] * (self._d_vec[j] @ q)
                 q = q - self._gamma[j] * self._y_vec[j]
-            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]))
+            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]) ** 2)
             for l in range(0, self._m):
                 if k < self._m:
                     j = l
-- 
2.43.0


From c0483371e95dbb2d4c83cb95e7b2f3fab018a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:21 +0000
Subject: [PATCH 36/43] fix: line search of the minimisation accepted steps
 uphill and could not lengthen a step

---
 src/magnopy/spinham/energy.py | 68 +++++++++++++++++------------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 21d16c4..5209d62 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1752,41 +1752,37 @@ class Energy:
         depend on the choice of the ground state type.
         """
         step = 1
+        # The step is known to be too short at step_min and too long at step_max
+        step_min, step_max = 0, None
         fx = energy(*_unpack(x))
-        x_new = _update(x, search_direction, step)
-        nabla_new = _grad(*_unpack(x_new))[0]
-        nabla = _grad(*_unpack(x))[0]
-        i = 0
-        tmp = [[], [], []]
-        while energy(*_unpack(x_new)) > fx + (
-            self._wolfe_c1 * step * nabla.T @ search_direction
-        ) or abs(nabla_new.T @ search_direction) > abs(
-            self._wolfe_c2 * nabla.T @ search_direction
-        ):
-            step *= 0.99
+        slope = _grad(*_unpack(x))[0] @ search_direction
+        # Energies that differ by less are not distinguished (rounding errors)
+        energy_error = 1000 * np.finfo(float).eps * max(abs(fx), 1)
+
+        # The state is stationary within the rounding errors
+        if abs(slope) <= energy_error:
+            return step
+
+        # Note: x is moved against the search direction, thus the energy goes down
+        # with the step if the slope is positive.
+        for _ in range(self._wolfe_iter_max):
             x_new = _update(x, search_direction, step)
-            nabla_new = _grad(*_unpack(x_new))[0]
-            # print(
-            #     energy(*_unpack(x_new)),
-            #     fx,
-            #     fx + self._wolfe_c1 * step * nabla.T @ search_direction,
-            #     abs(nabla_new.T @ search_direction),
-            #     abs(self._wolfe_c2 * nabla.T @ search_direction),
-            # )
-            tmp[0].append(step)
-            tmp[1].append(energy(*_unpack(x_new)))
-            tmp[2].append(fx + step * self._wolfe_c1 * nabla.T @ search_direction)
-            if i > self._wolfe_iter_max:
-                print("\n\n")
-                # TODO go into the details and deal with the failing cases
-                import matplotlib.pyplot as plt
-
-                fig, ax = plt.subplots()
-                ax.plot(tmp[0], tmp[1], lw=1, color="black")
-                ax.plot(tmp[0], tmp[2], lw=1, color="tab:red")
-                plt.savefig("tmp.png", dpi=300, bbox_inches="tight")
-                plt.close()
-                # return 1
-                raise ValueError("Wolfe failed")
-            i += 1
-        return step
+            slope_new = _grad(*_unpack(x_new))[0] @ search_direction
+
+            if (
+                energy(*_unpack(x_new))
+                > fx - self._wolfe_c1 * step * slope + energy_error
+                or slope_new < -self._wolfe_c2 * abs(slope)
+            ):
+                step_max = step
+            elif slope_new > self._wolfe_c2 * abs(slope):
+                step_min = step
+            else:
+                return step
+
+            if step_max is None:
+                step = 2 * step
+            else:
+                step = (step_min + step_max) / 2
+
+        raise ValueError("Wolfe failed")
-- 
2.43.0


From d94cf8368ef0b51eff2a7963dde36594d328f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:45 +0000
Subject: [PATCH 37/43] fix: convergence of the minimisation was judged on the
 torques of the previous state

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 5209d62..9c95d32 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1616,7 +1616,7 @@ class Energy:
             # Compute convergence targets
             energy_current = energy(*_unpack(x))
             energy_diff = abs(energy_prev - energy_current)
-            torque_targets = _compute_torque_target(torques)
+            torque_targets = _compute_torque_target(_grad(*_unpack(x))[1])
 
             # Compute condition for the loop
             condition = energy_diff > tolerance[0]
-- 
2.43.0


From 779f39e7fb0a40828b10f11a49e4a16cbe134e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:45 +0000
Subject: [PATCH 38/43] fix: history of the last steps was lost when the
 maximum amount of iterations was reached

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 9c95d32..b326b46 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1586,7 +1586,7 @@ class Energy:
                     f"Torques: {torque_targets}, "
                     f"Energy difference: {energy_diff:.5e}."
                 )
-                return _unpack(x)
+                break
 
             # Compute gradient and torques
             _grad(*_unpack(x), gradient_vector=gradient_vector, torques=torques)
-- 
2.43.0


From bf84defbe602b070be56506c248e287c0efbaeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:58 +0000
Subject: [PATCH 39/43] fix: histories of the antiferromagnetic minimisations
 were written to the files of one another

---
 src/magnopy/score/minimize_energy.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index f83c46f..794df6e 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -67,16 +67,15 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
     i = 0
     energies = []
     for qrel in (np.indices((3, 3, 3)) - 1).transpose((1, 2, 3, 0)).reshape(27, 3):
-        i += 1
-        print(qrel)
-        history_file = f"{seedname}-antiferro-history-{i}"
         if (qrel == [0, 0, 0]).all():
             continue
 
+        i += 1
+        history_file = f"{seedname}-antiferro-history-{i}"
         q = qrel @ spinham.reciprocal_cell / 2
         output_file.write(
             f"History for the q_rel = ({qrel[0]:2.0f}, {qrel[1]:2.0f}, {qrel[2]:2.0f}) "
-            f"is written to the file {history_file}"
+            f"is written to the file {history_file}\n"
         )
 
         spin_orientation, cone_axis, _ = energy.optimize(
@@ -92,10 +91,10 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
         output_file.write(
             f"  {'name':>5} {'r1':>11} {'r2':>11} {'r3':>11} {'sx':>11} {'sy':>11} {'sz':>11}\n"
         )
-        for i, spin in enumerate(spin_orientation):
-            pos = spinham.magnetic_atoms[i].position
+        for j, spin in enumerate(spin_orientation):
+            pos = spinham.magnetic_atoms[j].position
             output_file.write(
-                f"  {spinham.magnetic_atoms[i].name:>5} "
+                f"  {spinham.magnetic_atoms[j].name:>5} "
                 f"{pos[0]:11.8f} {pos[1]:11.8f} {pos[2]:11.8f} "
                 f"{spin[0]:11.8f} {spin[1]:11.8f} {spin[2]:11.8f}\n"
             )
-- 
2.43.0


From c85a2b6a71edb64097cef12071901920c37327ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:58 +0000
Subject: [PATCH 40/43] fix: summary of the antiferromagnetic minimisations
 could not be written

---
 src/magnopy/score/minimize_energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index 794df6e..531e80c 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -208,8 +208,8 @@ def manager(
             output_file.write(f"Ferromagnetic energy : {energies[i]:.8f}\n")
         if gs_to_minimize[i] == "antiferro":
             output_file.write(f"Antiferromagnetic energies :\n")
-            for i in range(26):
-                output_file.write(f"  {i+1} {energies[i]:.8f}\n")
+            for j in range(26):
+                output_file.write(f"  {j+1} {energies[i][j]:.8f}\n")
         if gs_to_minimize[i] == "spiral":
             output_file.write(f"Spiral energy : {energies[i]:.8f}\n")
 
-- 
2.43.0


From 940c33c926c4b9cca64e94c1bb3b26e8b7415e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:58 +0000
Subject: [PATCH 41/43] fix: manager of the minimisation failed without the
 ground state type and left the results unflushed

---
 src/magnopy/score/minimize_energy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index 531e80c..c2db304 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -167,7 +167,7 @@ def manager(
         energy.magnetic_field = magnetic_field
 
     # Decide which ground state types to minimize
-    if "all" in ground_state_type:
+    if ground_state_type is None or "all" in ground_state_type:
         gs_to_minimize = ["ferro", "antiferro", "spiral"]
     else:
         gs_to_minimize = ground_state_type
@@ -213,6 +213,8 @@ def manager(
         if gs_to_minimize[i] == "spiral":
             output_file.write(f"Spiral energy : {energies[i]:.8f}\n")
 
+    output_file.close()
+
 
 def create_parser():
     parser = ArgumentParser()
-- 
2.43.0


From 871a06ce1c97735512fdbd89185427c470c85849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 42/43] fix: combined view of the exchange and on-site
 parameters failed if the on-site factor is not defined and there are no
 on-site parameters

---
 src/magnopy/spinham/hamiltonian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 1414eb7..566a9ae 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -1095,7 +1095,9 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
+        # Factors might be undefined if there are no parameters to be scaled
+        if self.length1 > 0:
+            self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From 1b0e7617f7b2abe8dcd71fff5a00755c2d70fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 43/43] fix: energy could not be computed if the exchange
 factor is not defined and there are no exchange parameters

---
 src/magnopy/spinham/energy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index b326b46..cd0b322 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -555,6 +555,10 @@ class Energy:
         spinham.spin_normalized = False
         spinham.double_counting = True
 
+        # Exchange factor might be undefined if there are no exchange parameters
+        if len(spinham.exchange) == 0 and len(spinham.on_site) > 0:
+            spinham.exchange_factor = spinham.on_site_factor
+
         # Parameters of the Hamiltonian, private
         self._factor = spinham.exchange_factor
         self._atom_indices = dict(
-- 
2.43.0

