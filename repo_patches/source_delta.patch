From 10d1ac7915a4fbcb5f54131089c1d62ec0facdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:07 +0000
Subject: [PATCH 01/50] fix: keep the mirrored bond when double counting is
 switched off

---
 src/magnopy/spinham/hamiltonian.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 29df8ca..007afd5 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -352,9 +352,7 @@ class SpinHamiltonian(Crystal):
             else:
                 # If mirrored bond is not in the model, then remember it for addition
                 if (atom2, atom1, (-i, -j, -k)) not in self:
-                    bonds_to_add.append(
-                        atom2, atom1, (-i, -j, -k), parameter=parameter.T
-                    )
+                    bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
                 # Remember the bond for removal
                 bonds_to_remove.append((atom1, atom2, (i, j, k)))
 
-- 
2.43.0


From c95e8bc5973231f50c0efdb677d167582d81ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:07 +0000
Subject: [PATCH 02/50] fix: do not overwrite existing mirrored bonds when
 double counting is set

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 007afd5..4379a36 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -314,7 +314,7 @@ class SpinHamiltonian(Crystal):
         bonds_to_add = []
         for atom1, atom2, (i, j, k), parameter in self.exchange:
             # Remember the mirrored bond if it is not in the Hamiltonian yet
-            if (atom2, atom1, (-i, -j, -k)) not in self.exchange:
+            if (atom2, atom1, (-i, -j, -k)) not in self:
                 bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
 
         # Add all missing bonds
-- 
2.43.0


From 62b2990c62d22e086817f48552b336ae2b693af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:07 +0000
Subject: [PATCH 03/50] fix: remove on-site parameter by the name of the atom

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 4379a36..d4684bb 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -814,7 +814,7 @@ class SpinHamiltonian(Crystal):
 
         # If atom is a string, get the atom object
         if isinstance(atom, str):
-            atom1 = self.get_atom(atom)
+            atom = self.get_atom(atom)
 
         try:
             del self._on_site[atom]
-- 
2.43.0


From 2875766b37a21377194a4900df3d20ff55635ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:07 +0000
Subject: [PATCH 04/50] fix: remove an atom when both mirrored bonds are in the
 Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index d4684bb..587407e 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -947,12 +947,14 @@ class SpinHamiltonian(Crystal):
         # Look through on-site parameters
         if atom in self._on_site:
             parameters_for_removal.append(atom)
-        # No need to check for double counting explicitly
         # Both bonds -- ones that start and ones that end in atom -- are removed
         for parameter in parameters_for_removal:
-            # Parameter has different type (tuple or atom) but the same syntax
-            # works for both, see __delitem__ for details
-            del self[parameter]
+            # Bond might be already removed together with its mirrored one,
+            # if double counting is present
+            if parameter in self:
+                # Parameter has different type (tuple or atom) but the same syntax
+                # works for both, see __delitem__ for details
+                del self[parameter]
 
         # Remove an atom from the crystal
         super().remove_atom(atom)
-- 
2.43.0


From b64c1028532959e5ba4f97c9f2f2a8007ae14375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:01 +0000
Subject: [PATCH 05/50] fix: rewrite the mirrored bond together with the bond
 if double counting is present

---
 src/magnopy/spinham/hamiltonian.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 587407e..ddbb98c 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -712,11 +712,10 @@ class SpinHamiltonian(Crystal):
         # Check for double counting
         try:
             i, j, k = ijk
-            if (
-                self.double_counting
-                and (atom2, atom1, (-i, -j, -k)) not in self._exchange
-            ):
-                self._exchange[(atom2, atom1, (-i, -j, -k))] = parameter.T
+            mirrored_bond = (atom2, atom1, (-i, -j, -k))
+            # Bond that is mirrored to itself has no partner
+            if self.double_counting and mirrored_bond != (atom1, atom2, ijk):
+                self._exchange[mirrored_bond] = parameter.T
         # If it fails, then we do not need to add a mirrored bond, since the notation
         # is not defined yet and it is not clear wether the mirrored bond has to
         # be added or not
-- 
2.43.0


From 840c78e50e950ecc017036e854cfb53a43f7fb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:05 +0000
Subject: [PATCH 06/50] fix: do not share an instance of the parameter between
 bonds and Hamiltonians

---
 src/magnopy/spinham/hamiltonian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index ddbb98c..331cf74 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -706,6 +706,9 @@ class SpinHamiltonian(Crystal):
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
+        # Otherwise make a copy, since the same instance might be used for many bonds
+        else:
+            parameter = deepcopy(parameter)
 
         self._exchange[(atom1, atom2, ijk)] = parameter
 
@@ -796,6 +799,9 @@ class SpinHamiltonian(Crystal):
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
+        # Otherwise make a copy, since the same instance might be used for many bonds
+        else:
+            parameter = deepcopy(parameter)
 
         self._on_site[atom] = parameter
 
-- 
2.43.0


From 95a8d5425fad6c352ca7631976ec2b2ceda32583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:05 +0000
Subject: [PATCH 07/50] fix: return an independent crystal from the Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 331cf74..1cf544e 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -982,7 +982,7 @@ class SpinHamiltonian(Crystal):
         --------
         Crystal
         """
-        return Crystal(self.lattice, self.atoms)
+        return Crystal(self.lattice, deepcopy(self.atoms))
 
 
 class _SpinHamiltonianExchangeIterator:
-- 
2.43.0


From 241c37c1dac7894ff8894c66e52e7ea439b49335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:11 +0000
Subject: [PATCH 08/50] fix: scale on-site parameters correctly in the
 exchange-like form

---
 src/magnopy/spinham/hamiltonian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 1cf544e..da86158 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -122,7 +122,7 @@ class SpinHamiltonian(Crystal):
         * On-site parameters: ``atom, atom, (0,0,0), parameter``
 
         On-site parameters are scaled with the factor
-        :py:attr:`.exchange_factor`/:py:attr:`.on_site_factor`
+        :py:attr:`.on_site_factor`/:py:attr:`.exchange_factor`
 
         It is an iterator.
         """
@@ -1055,7 +1055,7 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.exchange_factor / spinham.on_site_factor
+        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From 4ab63617ad3b0b61066b3d0b1dea6ea60c9701c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 09/50] fix: exchange-like form does not need the on-site
 factor if there is no on-site

---
 src/magnopy/spinham/hamiltonian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index da86158..72a9050 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -1055,7 +1055,9 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
+        # On-site factor might be undefined if there are no on-site parameters
+        if self.length1 > 0:
+            self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From d51ebc5a88c7f6b07474e2c366bb60f8d0efb986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 10/50] fix: make energy independent of the Hamiltonian and of
 its notation

---
 src/magnopy/spinham/energy.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 8141c8c..f35d1d5 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -557,9 +557,14 @@ class Energy:
         self._g_factors = [atom.g_factor for atom in spinham.magnetic_atoms]
         self._spins = [atom.spin for atom in spinham.magnetic_atoms]
 
-        # Force double counting notation
-        previous_dc = spinham.double_counting
+        # Raise an error if the notation is not defined
+        spinham.double_counting, spinham.spin_normalized
+
+        # Force double counting notation and exclude spins from the parameters. Use a
+        # copy, as original Hamiltonian should not be affected.
+        spinham = spinham.copy()
         spinham.double_counting = True
+        spinham.spin_normalized = False
 
         # Get all bonds of the Hamiltonian.
         self._bonds = []
@@ -569,9 +574,6 @@ class Energy:
             d = R @ spinham.cell
             self._bonds.append([i, j, d, J])
 
-        # Return original noatation of SpinHamiltonian
-        spinham.double_counting = previous_dc
-
         # Minimisation settings, exposed to public as properties
         self._m = 10
 
-- 
2.43.0


From 7a47c958ac215646d2bceca90caf460bcda9acb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 11/50] fix: Zeeman energy is proportional to spin and counts
 cone axis component once

---
 src/magnopy/spinham/energy.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index f35d1d5..17fbc4d 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1086,7 +1086,11 @@ class Energy:
         # Compute zeeman energy
         if self.magnetic_field is not None:
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, spin_orientation
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                spin_orientation,
             )
 
         return energy
@@ -1200,11 +1204,14 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            # Only the component along the cone axis survives averaging over unit cells
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
@@ -1321,11 +1328,14 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            # Only the component along the cone axis survives averaging over unit cells
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
-- 
2.43.0


From 45011fa1a23b074a3f3d8380041112d2c6a69938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 12/50] fix: setters of g factors and spins, getter of the
 second Wolfe parameter

---
 src/magnopy/spinham/energy.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 17fbc4d..60315d5 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -675,7 +675,7 @@ class Energy:
         c2 : float
         """
 
-        return self._wolfe_c1
+        return self._wolfe_c2
 
     @wolfe_c2.setter
     def wolfe_c2(self, new_value):
@@ -740,7 +740,7 @@ class Energy:
 
     @g_factors.setter
     def g_factors(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New g factors must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
@@ -748,13 +748,14 @@ class Energy:
                 f"Expecten {len(self._spins)} g factors, got {len(new_value)}"
             )
 
+        new_value = list(new_value)
         for i, g_factor in enumerate(new_value):
             try:
-                new_value[i] = int(g_factor)
+                new_value[i] = float(g_factor)
             except:
                 raise ValueError(
                     f"One of the new g_factors (index {i}) is not "
-                    f"an integer:{g_factor}."
+                    f"a float:{g_factor}."
                 )
         self._g_factors = new_value
 
@@ -772,18 +773,19 @@ class Energy:
 
     @spins.setter
     def spins(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New spins must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
             raise ValueError(f"Expected {len(self._spins)} spins, got {len(new_value)}")
 
+        new_value = list(new_value)
         for i, spin in enumerate(new_value):
             try:
-                new_value[i] = int(spin)
+                new_value[i] = float(spin)
             except:
                 raise ValueError(
-                    f"One of the new spins (index {i}) is not " f"an integer:{spin}."
+                    f"One of the new spins (index {i}) is not " f"a float:{spin}."
                 )
         self._spins = new_value
 
-- 
2.43.0


From 2eb270a026b6f644c8a9500d1ca1e055a6b5aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:28 +0000
Subject: [PATCH 13/50] fix: size of the gradient vector in the antiferro
 minimization

---
 src/magnopy/spinham/energy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 60315d5..3600ee7 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1490,7 +1490,8 @@ class Energy:
         elif case in [1, "antiferro"]:
             x = _starting_antiferro(len(self._spins), antiferro_q, initial_guess)
 
-            self._gradient_size = 3 * len(self._spins) + 3
+            # Spiral vector is fixed, but it has a place in the gradient vector
+            self._gradient_size = 3 * len(self._spins) + 6
             self._torque_size = len(self._spins) + 1
 
             energy = self.antiferro
-- 
2.43.0


From 3d588a5070ee5b62cc7ff2a95f5201fd1a321cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:43 +0000
Subject: [PATCH 14/50] fix: update spiral vector in the direction of the lower
 energy

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 3600ee7..6eec9bf 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -305,7 +305,7 @@ def _update_x_spiral(x, search_direction, step=1):
             + (1 - np.cos(theta)) * r * (r @ x_0[i])
         )
 
-    x_1 += search_direction[-3:] * step
+    x_1 -= search_direction[-3:] * step
 
     return [x_0, x_1]
 
-- 
2.43.0


From 5cd7b73b27902cd4ce6e737ee2e080e394fff5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 15/50] fix: unitary eigenvectors for degenerate eigenvalues in
 Colpa diagonalization

---
 src/magnopy/magnons/diagonalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/diagonalization.py b/src/magnopy/magnons/diagonalization.py
index 5d16eff..1e49311 100644
--- a/src/magnopy/magnons/diagonalization.py
+++ b/src/magnopy/magnons/diagonalization.py
@@ -129,7 +129,7 @@ def solve_via_colpa(D):
     except LinAlgError:
         raise ColpaFailed
 
-    L, U = np.linalg.eig(K @ g @ np.conjugate(K).T)
+    L, U = np.linalg.eigh(K @ g @ np.conjugate(K).T)
 
     # Sort with respect to L, in descending order
     U = np.concatenate((L[:, None], U.T), axis=1).T
-- 
2.43.0


From a489d1aefceb4fde6722b5fc6e2f3dc82029e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 16/50] fix: return 2N energies together with G if Colpa fails

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 0bb75ce..18640e8 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -333,7 +333,7 @@ class MagnonDispersion:
                                 G = np.empty((2 * self.N, 2 * self.N), dtype=float)
 
                         else:
-                            omegas = np.zeros(self.N, dtype=float)
+                            omegas = np.zeros(2 * self.N, dtype=float)
                             if return_G:
                                 G = np.zeros((2 * self.N, 2 * self.N), dtype=float)
         omegas[np.abs(omegas) <= 1e-8] = 0
-- 
2.43.0


From 3213ca56ee4bfc73565573c160e4268dcbb5ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:42 +0000
Subject: [PATCH 17/50] fix: recalculate bonds and spiral vector when the cell
 is standardized

---
 src/magnopy/spinham/hamiltonian.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 72a9050..f55b69a 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -964,6 +964,27 @@ class SpinHamiltonian(Crystal):
         # Remove an atom from the crystal
         super().remove_atom(atom)
 
+    def standardize(self):
+        r"""
+        Standardize cell with respect to the Bravais lattice type.
+
+        Exchange bonds and spiral vector are given in the relative coordinates,
+        therefore, they are recalculated for the standardized cell.
+        """
+
+        # Get S matrix before cell standardization
+        S = self.S_matrix
+
+        super().standardize()
+
+        self._exchange = {
+            (atom1, atom2, tuple(np.rint(S @ ijk).astype(int).tolist())): parameter
+            for (atom1, atom2, ijk), parameter in self._exchange.items()
+        }
+
+        if self._spiral_vector is not None:
+            self.spiral_vector = self._spiral_vector @ np.linalg.inv(S)
+
     @property
     def crystal(self) -> Crystal:
         r"""
-- 
2.43.0


From 8b260c0436af69012e35d459929821787e238256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:18 +0000
Subject: [PATCH 18/50] fix: convert units of the exchange parameters when
 reading a text file

---
 src/magnopy/io/txt/internal.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 325cd5a..1183329 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -654,7 +654,7 @@ def _read_exchange(lines, spinham):
             + f"Will be converted to {ENERGY_NAME}.",
         )
     elif units.startswith("j"):
-        units_conversion = 1 / ENERGY_UNITS
+        units_conversion = 1 / ENERGY
         _logger.info(
             "Exchange parameters are provided in Joule. "
             + f" Will be converted to {ENERGY_NAME}.",
@@ -750,21 +750,23 @@ def _read_bond(lines, spinham: SpinHamiltonian, units_conversion=1):
     i = 1
     while i < len(lines):
         if lines[i].lower().startswith("i"):
-            iso = float(lines[i].split()[1])
+            iso = float(lines[i].split()[1]) * units_conversion
         if lines[i].lower().startswith("d"):
-            dmi = [float(x) for x in lines[i].split()[1:]]
+            dmi = [float(x) * units_conversion for x in lines[i].split()[1:]]
         if lines[i].lower().startswith("s"):
-            Sxx, Syy, Sxy, Sxz, Syz = [float(x) for x in lines[i].split()[1:]]
+            Sxx, Syy, Sxy, Sxz, Syz = [
+                float(x) * units_conversion for x in lines[i].split()[1:]
+            ]
             symm = [[Sxx, Sxy, Sxz], [Sxy, Syy, Syz], [Sxz, Syz, -Sxx - Syy]]
         if lines[i].lower().startswith("m"):
             matrix = np.zeros((3, 3), dtype=float)
             for j in range(3):
                 i += 1
-                matrix[j] = [float(x) for x in lines[i].split()]
-        spinham.add_exchange(
-            name1, name2, R, matrix=matrix, iso=iso, aniso=symm, dmi=dmi
-        )
+                matrix[j] = [float(x) * units_conversion for x in lines[i].split()]
         i += 1
+
+    spinham.add_exchange(name1, name2, R, matrix=matrix, iso=iso, aniso=symm, dmi=dmi)
+
     return spinham
 
 
-- 
2.43.0


From ca0d4ea9c593a7c122d8d7503dac5bbc443c29e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:18 +0000
Subject: [PATCH 19/50] fix: store relative coordinates of the spiral vector
 when reading a text file

---
 src/magnopy/io/txt/internal.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 1183329..d33eb5a 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -958,7 +958,7 @@ def _read_cone_axis(lines, spinham: SpinHamiltonian):
     return spinham
 
 
-def _read_spiral_vector(lines, spinham: SpinHamiltonian):
+def _read_spiral_vector(lines, spinham: SpinHamiltonian, length_conversion=1):
     R"""
     Read information from the spiral-vector section as described in the documentation.
 
@@ -982,6 +982,9 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
         Parameters section of the input file.
     spinham : :py:class:`.SpinHamiltonian`
         Spin Hamiltonian, where the data are saved.
+    length_conversion : float, default 1
+        Units of the cell section in the units of magnopy. Absolute coordinates of the
+        spiral vector are provided in the inverse of those units.
 
     Returns
     -------
@@ -1018,8 +1021,11 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
 
     q = [float(x) for x in lines[1].split()]
 
-    if relative:
-        q = q @ spinham.reciprocal_cell
+    # Spiral vector is stored in the relative coordinates
+    if not relative:
+        q = absolute_to_relative(
+            np.array(q) / length_conversion, spinham.reciprocal_cell
+        )
 
     spinham.spiral_vector = q
 
@@ -1157,6 +1163,15 @@ def load_spinham_txt(filename, save_filtered=False, verbose=False) -> SpinHamilt
 
     # If present read spiral-vector
     if "spiral-vector" in sections:
-        _read_spiral_vector(lines[slice(*sections["spiral-vector"])], spinham)
+        cell_header = lines[sections["cell"][0]].lower().split()
+        if len(cell_header) == 2 and cell_header[1].startswith("b"):
+            length_conversion = BOHR_RADIUS / LENGTH
+        else:
+            length_conversion = 1
+        _read_spiral_vector(
+            lines[slice(*sections["spiral-vector"])],
+            spinham,
+            length_conversion=length_conversion,
+        )
 
     return spinham
-- 
2.43.0


From 989e24516e199aca60b23da989380090da932563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:18 +0000
Subject: [PATCH 20/50] fix: write spin angles to the text file

---
 src/magnopy/geometry.py        | 13 ++++++-------
 src/magnopy/io/txt/internal.py |  4 ++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/magnopy/geometry.py b/src/magnopy/geometry.py
index d162c81..7049f69 100644
--- a/src/magnopy/geometry.py
+++ b/src/magnopy/geometry.py
@@ -40,20 +40,19 @@ def vector_to_angles(vector, in_degrees=True):
         Whether to return angles in degrees or radians.
 
     """
-    modulus = np.linalg.notm(vector)
+    modulus = np.linalg.norm(vector)
 
-    if np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
+    if modulus == 0:
+        polar, azimuthal = 0, np.pi / 2
+    elif np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
         polar, azimuthal = 0, np.pi / 2
     elif np.allclose(vector / modulus, [0.0, 0.0, -1.0]):
         polar, azimuthal = np.pi, np.pi / 2
     else:
         polar = np.arccos(np.dot(vector, [0, 0, 1]) / modulus)
-        xy_projection = np.array([vector[0], vector[1], 0])
-        azimuthal = np.arccos(
-            np.dot(xy_projection, [1, 0, 0]) / np.linalg.norm(xy_projection)
-        )
+        azimuthal = np.arctan2(vector[1], vector[0]) % (2 * np.pi)
 
-    if in_degreees:
+    if in_degrees:
         return modulus, polar * TODEGREES, azimuthal * TODEGREES
     else:
         return modulus, polar, azimuthal
diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index d33eb5a..db00628 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -212,8 +212,8 @@ def dump_spinham_txt(
                 S, theta, phi = vector_to_angles(atom.spin_vector, in_degrees=True)
                 text[-1] += " " + " ".join(
                     [
-                        f"t{theta:8.4f}",
-                        f"p{phi:8.4f}",
+                        f"{theta:8.4f}",
+                        f"{phi:8.4f}",
                         f"{S:8.4f}",
                     ]
                 )
-- 
2.43.0


From c68f3485b4c19e7cf8588a83afb778a0f256e44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:41 +0000
Subject: [PATCH 21/50] fix: allow to skip data of the atoms in the text file

---
 src/magnopy/io/txt/internal.py |  7 +++++--
 src/magnopy/io/txt/verify.py   | 12 ++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index db00628..bed53d0 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -480,11 +480,14 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
     )
 
     # Read atom's data header
-    data_header = lines[1].lower().split()
+    keywords = lines[1].lower().split()
 
     # Read atoms's information
     for line in lines[2:]:
-        line = line.split()
+        # Blocks that are skipped for this atom (marked with "-") are not considered
+        blocks = [block for block in zip(keywords, line.split()) if block[1] != "-"]
+        data_header = [block[0] for block in blocks]
+        line = [block[1] for block in blocks]
         name = line[data_header.index("name")]
 
         # Find the coordinates
diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0a6f93b..d91ffbe 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -762,6 +762,18 @@ def _verify_atoms(lines, line_indices):
                 )
             )
 
+        # Check that the data are still complete if some blocks are skipped
+        elif "-" in line:
+            keywords = [
+                keyword
+                for keyword, block in zip(lines[1].split(), line)
+                if block != "-"
+            ]
+            _, _, skipped_errors = _verify_atoms_data_header(
+                " ".join(keywords), line_indices[i]
+            )
+            errors = errors or skipped_errors
+
         # Check atom's names if any
         if name_index is not None:
             errors = errors or _verify_atom_name(line[name_index], line_indices[i])
-- 
2.43.0


From 3deaba4116890d720f15042f1bcd10337094260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:41 +0000
Subject: [PATCH 22/50] fix: verification of the atoms section with missing
 blocks

---
 src/magnopy/io/txt/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index d91ffbe..ca6cfef 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -775,7 +775,7 @@ def _verify_atoms(lines, line_indices):
             errors = errors or skipped_errors
 
         # Check atom's names if any
-        if name_index is not None:
+        if name_index is not None and name_index < len(line):
             errors = errors or _verify_atom_name(line[name_index], line_indices[i])
             allowed_atoms.add(line[name_index])
 
-- 
2.43.0


From 32a5c348b4a9d0d5479e3e00e49635810e8e65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:41 +0000
Subject: [PATCH 23/50] fix: verify that the notation section is present in the
 text file

---
 src/magnopy/io/txt/verify.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index ca6cfef..0449b03 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1503,6 +1503,16 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
             errors = True
             _logger.error(f'File: failed to find required section "{r_section}"')
 
+    # Notation section is required if any parameters are present
+    if (
+        "exchange" in found_sections or "on-site" in found_sections
+    ) and "notation" not in found_sections:
+        errors = True
+        _logger.error(
+            'File: failed to find section "notation" that is required '
+            + 'if "exchange" or "on-site" section is present'
+        )
+
     # Verify atoms section in advance, since we need to know a set of allowed atoms.
     if "atoms" in found_sections:
         allowed_atoms, atoms_errors = _verify_atoms(
-- 
2.43.0


From 3dbcd7c5346937776a5a12de165bf7dccc5327cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:41 +0000
Subject: [PATCH 24/50] fix: do not change the global limit of the traceback

---
 src/magnopy/io/txt/verify.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0449b03..faf95df 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1572,9 +1572,6 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
     else:
         if raise_on_fail:
             _logger.info("Model file verification finished: FAILED")
-            import sys
-
-            sys.tracebacklimit = 0
             raise FailedToVerifyTxtModelFile("Check log files for the details")
         else:
             _logger.info("Model file verification finished: FAILED")
-- 
2.43.0


From 080ad2bca0b2375e0f31cd81dc67eebc0415e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:41 +0000
Subject: [PATCH 25/50] fix: save filtered copy of the text file

---
 src/magnopy/io/txt/internal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index bed53d0..a7ad0cb 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -17,6 +17,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 import logging
+import os
 
 import numpy as np
 from wulfric import TORADIANS, Atom, absolute_to_relative, volume
@@ -1096,7 +1097,8 @@ def _filter_txt_file(filename=None, lines=None, save_filtered=False):
 
     # Save filtered copy of the file
     if save_filtered:
-        filtered_filename = f"filtered_{filename}"
+        head, tail = os.path.split(filename)
+        filtered_filename = os.path.join(head, f"filtered_{tail}")
         with open(filtered_filename, "w", encoding="utf-8") as f:
             f.write("\n".join(filtered_lines))
         _logger.debug(
-- 
2.43.0


From 1eb509760896fc5eef7c5f667591333c8a915372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 26/50] fix: accept relative units of the atoms section as
 documented

---
 src/magnopy/io/txt/verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index faf95df..0a3af73 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -738,7 +738,9 @@ def _verify_atoms(lines, line_indices):
     # Starting from this line it is assumed that the section has at least 3 lines
 
     # Check the section header
-    errors = errors or _verify_section_header(lines[0], line_indices[0], ["a", "b"])
+    errors = errors or _verify_section_header(
+        lines[0], line_indices[0], ["a", "b", "r"]
+    )
 
     # Check the data header
     N, name_index, data_header_errors = _verify_atoms_data_header(
-- 
2.43.0


From a2e4fbd234bbec1811d768f0d0e48fa36eec22a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 27/50] fix: keep the order of atoms and parameters when
 reading hdf5 file

---
 src/magnopy/io/hdf5/internal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c462a88..c3a8dbb 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -129,7 +129,7 @@ def load_spinham_hdf5(
 
     # Read the atoms
     atoms = root_group["atoms"]
-    for index in atoms:
+    for index in sorted(atoms, key=int):
         atom = atoms[index]
         name = atom["name"][()].decode("utf-8")
         if _verify_atom_name(name, line_index="hdf5 file"):
@@ -211,7 +211,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{exchange.attrs['units']}'.")
 
-        for index in exchange:
+        for index in sorted(exchange, key=int):
             bond = exchange[index]
             atom1 = bond["atom-1"][()].decode("utf-8")
             try:
@@ -251,7 +251,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{on_site.attrs['units']}'.")
 
-        for index in on_site:
+        for index in sorted(on_site, key=int):
             parameters = on_site[index]
             atom = parameters["atom"][()].decode("utf-8")
             try:
-- 
2.43.0


From c29fbbcb71c2f526d86776aa5a5f60cfb22768f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 28/50] fix: raise an error for unknown units of the cell in
 hdf5 file

---
 src/magnopy/io/hdf5/internal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c3a8dbb..993f2a8 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -123,7 +123,10 @@ def load_spinham_hdf5(
     elif cell.attrs["units"].lower().startswith("angstrom"):
         units_conversion = ANGSTROM / LENGTH
     else:
-        _logger.error(f"Unknown units '{cell['units']}' for cell in file '{filename}'.")
+        _logger.error(
+            f"Unknown units '{cell.attrs['units']}' for cell in file '{filename}'."
+        )
+        raise ValueError(f"Unknown units '{cell.attrs['units']}'.")
 
     spinham.cell *= units_conversion
 
-- 
2.43.0


From ef79db4d18bbc291c3946cd605bf8f19d9773450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 29/50] fix: report atoms that are missing in the atoms group
 of hdf5 file

---
 src/magnopy/io/hdf5/internal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 993f2a8..cf49bee 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -221,15 +221,17 @@ def load_spinham_hdf5(
                 atom1 = spinham.get_atom(atom1)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom1}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom1}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             atom2 = bond["atom-2"][()].decode("utf-8")
             try:
                 atom2 = spinham.get_atom(atom2)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom2}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom2}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             ijk = tuple(bond["ijk"][:])
             matrix = bond["matrix"][:]
             spinham.add_exchange(atom1, atom2, ijk, matrix=matrix * units_conversion)
@@ -261,8 +263,9 @@ def load_spinham_hdf5(
                 atom = spinham.get_atom(atom)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom}" in on-site bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom}" in on-site bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             matrix = parameters["matrix"][:]
             spinham.add_on_site(atom, matrix=matrix * units_conversion)
 
-- 
2.43.0


From 0c6fce5e8edb43ab1b02b8638c31597de54e9827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:39 +0000
Subject: [PATCH 30/50] fix: close hdf5 file after reading

---
 src/magnopy/io/hdf5/internal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index cf49bee..77ade55 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -70,9 +70,12 @@ def load_spinham_hdf5(
         The SpinHamiltonian object loaded from the file.
     """
 
-    # Open a file and try to detect the desired group
-    file = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as file:
+        return _load_spinham(file, filename=filename, groupname=groupname)
 
+
+def _load_spinham(file, filename, groupname=None) -> SpinHamiltonian:
+    # Try to detect the desired group
     if groupname is None:
         _logger.info(f"Groupname not provided, trying to detect it in file {filename}.")
 
-- 
2.43.0


From fc2219bd6e3247941b36a5674597e5d0136c549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:39 +0000
Subject: [PATCH 31/50] fix: keep the content of hdf5 file if the Hamiltonian
 can not be written

---
 src/magnopy/io/hdf5/internal.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 77ade55..5ae2259 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -36,6 +36,8 @@ _logger = logging.getLogger(__name__)
 
 __all__ = ["load_spinham_hdf5", "dump_spinham_hdf5"]
 
+_TMP_GROUPNAME = "__magnopy_tmp__"
+
 
 def load_spinham_hdf5(
     filename,
@@ -337,18 +339,26 @@ def dump_spinham_hdf5(
         existing ``filename``.
     """
 
-    file = h5py.File(filename, "a")
-    try:
-        root_group = file.create_group(groupname)
-    except ValueError:
-        if overwrite:
-            del file[groupname]
-            root_group = file.create_group(groupname)
-        else:
+    with h5py.File(filename, "a") as file:
+        if groupname in file and not overwrite:
             raise FileExistsError(
                 f"Group {groupname} already exists in file {filename}."
             )
 
+        # Write to the temporary group first, therefore, the content of the file is not
+        # changed if the Hamiltonian can not be written
+        root_group = file.create_group(_TMP_GROUPNAME)
+        try:
+            _dump_spinham(spinham, root_group)
+            if groupname in file:
+                del file[groupname]
+            file.move(_TMP_GROUPNAME, groupname)
+        finally:
+            if _TMP_GROUPNAME in file:
+                del file[_TMP_GROUPNAME]
+
+
+def _dump_spinham(spinham: SpinHamiltonian, root_group) -> None:
     root_group.attrs["type"] = "SpinHamiltonian"
 
     # Cell
@@ -422,6 +432,3 @@ def dump_spinham_hdf5(
             "cone-axis", data=spinham.cone_axis, dtype=float
         )
         cone_axis.attrs["units"] = "Absolute"
-
-    if filename is not None:
-        file.close()
-- 
2.43.0


From bdc6c9b82d6405c8c3e7b39a2039411b9b6d8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 32/50] fix: access to the spin direction in the vampire
 material file

---
 src/magnopy/io/txt/vampire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 6d457ad..7f16760 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -140,7 +140,7 @@ def dump_mat(spinham: SpinHamiltonian, filename=None, materials=None, nologo=Fal
             text.append(f"material[{m_i}]:material-name = {atom.name}")
             text.append(f"material[{m_i}]:material-element = {atom.type}")
             text.append(f"material[{m_i}]:atomic-spin-moment={atom.spin} ! muB")
-            if atom._spin_direction is not None:
+            if atom.spin > 0:
                 text.append(
                     f"material[{m_i}]:initial-spin-direction = {atom.spin_direction[0]:.8f},{atom.spin_direction[1]:.8f},{atom.spin_direction[2]:.8f}"
                 )
-- 
2.43.0


From 296d659a5fecc19fb10d4a029af7027e39007a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 33/50] fix: do not change the Hamiltonian when writing vampire
 unit cell file

---
 src/magnopy/io/txt/vampire.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 7f16760..337b696 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -203,7 +203,10 @@ def dump_ucf(
     """
     if materials is None:
         materials = [i for i in range(len(spinham.magnetic_atoms))]
-    original_notation = spinham.notation
+    # Raise an error if the notation of the original Hamiltonian is not defined
+    spinham.notation
+    # Do not change the notation of the original Hamiltonian
+    spinham = spinham.copy()
     spinham.notation = "vampire"
     if nologo:
         text = []
@@ -245,8 +248,6 @@ def dump_ucf(
         )
         IID += 1
 
-    spinham.notation = original_notation
-
     text = "\n".join(text)
 
     if filename is None:
-- 
2.43.0


From cbb428830d2ca9d2aa70ac269c69ef4b51d6b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 34/50] fix: close TB2J file and do not fail after the last
 bond

---
 src/magnopy/io/txt/tb2j.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/tb2j.py b/src/magnopy/io/txt/tb2j.py
index 85605e6..7defa55 100644
--- a/src/magnopy/io/txt/tb2j.py
+++ b/src/magnopy/io/txt/tb2j.py
@@ -18,6 +18,8 @@
 
 __all__ = ["load_tb2j"]
 
+from io import StringIO
+
 import numpy as np
 from wulfric import REL_TOL
 
@@ -86,7 +88,8 @@ def load_tb2j(filename, quiet=True, bravais_type=None) -> SpinHamiltonian:
     aniso_flag = "J_ani:"
     dmi_flag = "DMI:"
 
-    file = open(filename, "r")
+    with open(filename, "r") as f:
+        file = StringIO(f.read())
     model = SpinHamiltonian(notation="TB2J")
     line = True
 
@@ -158,6 +161,9 @@ def load_tb2j(filename, quiet=True, bravais_type=None) -> SpinHamiltonian:
         while line and minor_sep not in line:
             line = file.readline()
         line = file.readline().translate(garbage).split()
+        # There are no bonds left
+        if not line:
+            break
         atom1 = line[0]
         atom2 = line[1]
         R = tuple(map(int, line[2:5]))
-- 
2.43.0


From eaf31c37b6547264887263ea7b672421d0a02e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 35/50] fix: summary of the energy minimization script

---
 src/magnopy/score/minimize_energy.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index f83c46f..cd63d42 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -67,16 +67,16 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
     i = 0
     energies = []
     for qrel in (np.indices((3, 3, 3)) - 1).transpose((1, 2, 3, 0)).reshape(27, 3):
-        i += 1
-        print(qrel)
-        history_file = f"{seedname}-antiferro-history-{i}"
         if (qrel == [0, 0, 0]).all():
             continue
 
+        i += 1
+        history_file = f"{seedname}-antiferro-history-{i}"
+
         q = qrel @ spinham.reciprocal_cell / 2
         output_file.write(
             f"History for the q_rel = ({qrel[0]:2.0f}, {qrel[1]:2.0f}, {qrel[2]:2.0f}) "
-            f"is written to the file {history_file}"
+            f"is written to the file {history_file}\n"
         )
 
         spin_orientation, cone_axis, _ = energy.optimize(
@@ -92,10 +92,10 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
         output_file.write(
             f"  {'name':>5} {'r1':>11} {'r2':>11} {'r3':>11} {'sx':>11} {'sy':>11} {'sz':>11}\n"
         )
-        for i, spin in enumerate(spin_orientation):
-            pos = spinham.magnetic_atoms[i].position
+        for j, spin in enumerate(spin_orientation):
+            pos = spinham.magnetic_atoms[j].position
             output_file.write(
-                f"  {spinham.magnetic_atoms[i].name:>5} "
+                f"  {spinham.magnetic_atoms[j].name:>5} "
                 f"{pos[0]:11.8f} {pos[1]:11.8f} {pos[2]:11.8f} "
                 f"{spin[0]:11.8f} {spin[1]:11.8f} {spin[2]:11.8f}\n"
             )
@@ -209,11 +209,13 @@ def manager(
             output_file.write(f"Ferromagnetic energy : {energies[i]:.8f}\n")
         if gs_to_minimize[i] == "antiferro":
             output_file.write(f"Antiferromagnetic energies :\n")
-            for i in range(26):
-                output_file.write(f"  {i+1} {energies[i]:.8f}\n")
+            for j in range(26):
+                output_file.write(f"  {j+1} {energies[i][j]:.8f}\n")
         if gs_to_minimize[i] == "spiral":
             output_file.write(f"Spiral energy : {energies[i]:.8f}\n")
 
+    output_file.close()
+
 
 def create_parser():
     parser = ArgumentParser()
-- 
2.43.0


From 9d6f73bf34f37911d78de0bbc115f220dcec882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:50 +0000
Subject: [PATCH 36/50] fix: search direction of the L-BFGS algorithm

Displacement had the wrong sign, the first loop over the stored steps never ran,
the scale was divided by the norm instead of its square and unchanged gradient
led to NaN in the returned spin directions.
---
 src/magnopy/spinham/energy.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 6eec9bf..a3c68f4 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1706,11 +1706,13 @@ class Energy:
             self._gamma = np.zeros((self._m), dtype=float)
             search_direction = gradient_vector
         else:
-            self._d_vec[n] = previous_lambda * previous_search_direction
+            self._d_vec[n] = -previous_lambda * previous_search_direction
             self._y_vec[n] = gradient_vector - previous_gradient_vector
-            self._rho[n] = 1 / (self._d_vec[n] @ self._y_vec[n])
+            curvature = self._d_vec[n] @ self._y_vec[n]
 
-            if self._rho[n] < 0:
+            # Restart if curvature is not positive
+            # (it is zero if the gradient does not change)
+            if curvature <= 0:
                 return (
                     0,
                     self._compute_search_direction(0, gradient_vector=gradient_vector)[
@@ -1718,13 +1720,15 @@ class Energy:
                     ],
                 )
 
+            self._rho[n] = 1 / curvature
+
             q = gradient_vector.copy()
 
-            for l in range(self._m - 1, -1):
+            for l in range(self._m - 1, -1, -1):
                 j = (l + n + 1) % self._m
                 self._gamma[j] = self._rho[j] * (self._d_vec[j] @ q)
                 q = q - self._gamma[j] * self._y_vec[j]
-            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]))
+            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]) ** 2)
             for l in range(0, self._m):
                 if k < self._m:
                     j = l
-- 
2.43.0


From f8440f216fbdfa875086656f57afc22474baa258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:50 +0000
Subject: [PATCH 37/50] fix: line search of the energy minimization

Sufficient decrease was checked with the wrong sign, i.e. increase of the energy
was accepted, and the step was never increased, which led to the failure of the
search for most of the starting points.
---
 src/magnopy/spinham/energy.py | 61 ++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index a3c68f4..43b4268 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1749,41 +1749,34 @@ class Energy:
         depend on the choice of the ground state type.
         """
         step = 1
+        # Interval that contains the desired step
+        lower, upper = 0, np.inf
         fx = energy(*_unpack(x))
-        x_new = _update(x, search_direction, step)
-        nabla_new = _grad(*_unpack(x_new))[0]
         nabla = _grad(*_unpack(x))[0]
-        i = 0
-        tmp = [[], [], []]
-        while energy(*_unpack(x_new)) > fx + (
-            self._wolfe_c1 * step * nabla.T @ search_direction
-        ) or abs(nabla_new.T @ search_direction) > abs(
-            self._wolfe_c2 * nabla.T @ search_direction
-        ):
-            step *= 0.99
+        slope = nabla.T @ search_direction
+
+        # Note: x is updated in the direction opposite to the search direction
+        for i in range(self._wolfe_iter_max):
             x_new = _update(x, search_direction, step)
             nabla_new = _grad(*_unpack(x_new))[0]
-            # print(
-            #     energy(*_unpack(x_new)),
-            #     fx,
-            #     fx + self._wolfe_c1 * step * nabla.T @ search_direction,
-            #     abs(nabla_new.T @ search_direction),
-            #     abs(self._wolfe_c2 * nabla.T @ search_direction),
-            # )
-            tmp[0].append(step)
-            tmp[1].append(energy(*_unpack(x_new)))
-            tmp[2].append(fx + step * self._wolfe_c1 * nabla.T @ search_direction)
-            if i > self._wolfe_iter_max:
-                print("\n\n")
-                # TODO go into the details and deal with the failing cases
-                import matplotlib.pyplot as plt
-
-                fig, ax = plt.subplots()
-                ax.plot(tmp[0], tmp[1], lw=1, color="black")
-                ax.plot(tmp[0], tmp[2], lw=1, color="tab:red")
-                plt.savefig("tmp.png", dpi=300, bbox_inches="tight")
-                plt.close()
-                # return 1
-                raise ValueError("Wolfe failed")
-            i += 1
-        return step
+
+            # Step is too long
+            if energy(*_unpack(x_new)) > fx - self._wolfe_c1 * step * slope:
+                upper = step
+            # Step is too short
+            elif nabla_new.T @ search_direction > self._wolfe_c2 * slope:
+                lower = step
+            else:
+                return step
+
+            step = 2 * lower if upper == np.inf else (lower + upper) / 2
+
+            # The interval can not be made smaller
+            if step in (lower, upper):
+                break
+
+        # Energy decreases for this step, even though the slope is not small enough
+        if lower > 0:
+            return lower
+
+        raise ValueError("Wolfe failed")
-- 
2.43.0


From e27ca17aa840345ff21f3671f55437837be909e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:07 +0000
Subject: [PATCH 38/50] fix: format matrix parameter without format
 specification

---
 src/magnopy/spinham/parameter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/magnopy/spinham/parameter.py b/src/magnopy/spinham/parameter.py
index f2a4863..4db33c8 100644
--- a/src/magnopy/spinham/parameter.py
+++ b/src/magnopy/spinham/parameter.py
@@ -73,6 +73,8 @@ class MatrixParameter:
     #                     String representation and formatting                     #
     ################################################################################
     def __format__(self, fmt):
+        if fmt == "":
+            return self.__str__()
         return self.__str__(fmt=fmt)
 
     def __str__(self, fmt=".4f"):
-- 
2.43.0


From 0073d652136a490c84e1fe8fa4dce9415a2d3b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 39/50] fix: accept other keywords in the data header of atoms
 as documented

---
 src/magnopy/io/txt/verify.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0a3af73..7cbe736 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -634,13 +634,13 @@ def _verify_atoms_data_header(line, line_index):
 
     # Categorized keywords
     for keyword in keywords:
-        if keyword.startswith("r") or keyword in "xyz":
+        if keyword in ["r1", "r2", "r3", "x", "y", "z"]:
             position_keywords.append(keyword)
-        elif keyword.startswith("s"):
+        elif keyword in ["s", "sx", "sy", "sz", "sp", "st"]:
             spin_keywords.append(keyword)
-        elif keyword.startswith("l"):
+        elif keyword in ["l", "lx", "ly", "lz", "lp", "lt"]:
             orbital_moment_keywords.append(keyword)
-        elif keyword.startswith("j"):
+        elif keyword in ["j", "jx", "jy", "jz", "jp", "jt"]:
             total_moment_keywords.append(keyword)
 
     # Sort the lists
-- 
2.43.0


From 0a190412a4f15ea2664b7b3966fbd54bebeb3480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:57 +0000
Subject: [PATCH 40/50] fix: restore the old group of hdf5 file if the new one
 can not replace it

---
 src/magnopy/io/hdf5/internal.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 5ae2259..3d49edd 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -345,14 +345,24 @@ def dump_spinham_hdf5(
                 f"Group {groupname} already exists in file {filename}."
             )
 
+        # Left by the interrupted dump
+        if _TMP_GROUPNAME in file:
+            del file[_TMP_GROUPNAME]
+
         # Write to the temporary group first, therefore, the content of the file is not
         # changed if the Hamiltonian can not be written
-        root_group = file.create_group(_TMP_GROUPNAME)
         try:
-            _dump_spinham(spinham, root_group)
-            if groupname in file:
-                del file[groupname]
-            file.move(_TMP_GROUPNAME, groupname)
+            _dump_spinham(spinham, file.create_group(f"{_TMP_GROUPNAME}/new"))
+            try:
+                if groupname in file:
+                    file.move(groupname, f"{_TMP_GROUPNAME}/old")
+                file.move(f"{_TMP_GROUPNAME}/new", groupname)
+            except BaseException:
+                if f"{_TMP_GROUPNAME}/old" in file:
+                    if groupname in file:
+                        del file[groupname]
+                    file.move(f"{_TMP_GROUPNAME}/old", groupname)
+                raise
         finally:
             if _TMP_GROUPNAME in file:
                 del file[_TMP_GROUPNAME]
-- 
2.43.0


From f826d439869b3caad35878fd6b8ae5d67d5facae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:18 +0000
Subject: [PATCH 41/50] fix: units of the absolute spiral vector in hdf5 file
 with the cell in Bohr

---
 src/magnopy/io/hdf5/internal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 3d49edd..c80a83f 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -134,6 +134,7 @@ def _load_spinham(file, filename, groupname=None) -> SpinHamiltonian:
         raise ValueError(f"Unknown units '{cell.attrs['units']}'.")
 
     spinham.cell *= units_conversion
+    length_conversion = units_conversion
 
     # Read the atoms
     atoms = root_group["atoms"]
@@ -280,7 +281,10 @@ def _load_spinham(file, filename, groupname=None) -> SpinHamiltonian:
         units = root_group["spiral-vector"].attrs["units"].lower()
 
         if units == "absolute":
-            spiral_vector = absolute_to_relative(spiral_vector, spinham.reciprocal_cell)
+            # Units of the cell define units of the vector
+            spiral_vector = absolute_to_relative(
+                spiral_vector / length_conversion, spinham.reciprocal_cell
+            )
         elif units != "relative":
             _logger.error(
                 f"Unknown units '{units}' for spiral vector in file '{filename}'."
-- 
2.43.0


From 29149f78371a24edc263e25d27ed8e9153b0c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:10 +0000
Subject: [PATCH 42/50] fix: write magnetic moment instead of spin to the
 vampire material file

---
 src/magnopy/io/txt/vampire.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 337b696..0912639 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -139,7 +139,9 @@ def dump_mat(spinham: SpinHamiltonian, filename=None, materials=None, nologo=Fal
             text.append("#---------------------------------------------------")
             text.append(f"material[{m_i}]:material-name = {atom.name}")
             text.append(f"material[{m_i}]:material-element = {atom.type}")
-            text.append(f"material[{m_i}]:atomic-spin-moment={atom.spin} ! muB")
+            text.append(
+                f"material[{m_i}]:atomic-spin-moment={np.linalg.norm(atom.magmom)} ! muB"
+            )
             if atom.spin > 0:
                 text.append(
                     f"material[{m_i}]:initial-spin-direction = {atom.spin_direction[0]:.8f},{atom.spin_direction[1]:.8f},{atom.spin_direction[2]:.8f}"
-- 
2.43.0


From b01c6657350a75d6bfcfc4c0baddc78c1129ae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:29 +0000
Subject: [PATCH 43/50] fix: documented option and default of the energy
 minimization script

---
 src/magnopy/score/minimize_energy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index cd63d42..33bbf82 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -168,7 +168,7 @@ def manager(
         energy.magnetic_field = magnetic_field
 
     # Decide which ground state types to minimize
-    if "all" in ground_state_type:
+    if ground_state_type is None or "all" in ground_state_type:
         gs_to_minimize = ["ferro", "antiferro", "spiral"]
     else:
         gs_to_minimize = ground_state_type
@@ -246,6 +246,7 @@ def create_parser():
     )
     parser.add_argument(
         "-mf",
+        "--magnetic-field",
         "--magnetic_field",
         default=None,
         type=float,
-- 
2.43.0


From bd3fee252aa9bb77f9a6c6ca63df1e1ee83b0002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 44/50] fix: order of long info in the logo

---
 src/magnopy/_pinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/_pinfo.py b/src/magnopy/_pinfo.py
index ceb947c..b4442ee 100644
--- a/src/magnopy/_pinfo.py
+++ b/src/magnopy/_pinfo.py
@@ -124,9 +124,9 @@ def logo(info=None, line_length=None, flat=False, date_time=False, comment=None)
             after = len(info) - len(cat) - before
             for i in range(len(info)):
                 if i < before or i >= len(info) - after:
-                    logo_info.append(f"{info[i-before]:^{N-n}}")
+                    logo_info.append(f"{info[i]:^{N-n}}")
                 else:
-                    logo_info.append(f"{info[i-before]:^{N-n}}{cat[i-before]:^{n}}")
+                    logo_info.append(f"{info[i]:^{N-n}}{cat[i-before]:^{n}}")
 
     logo_info = [f"{comment}{x:^{line_length}}\n" for x in logo_info]
     return "".join(logo_info)[:-1]
-- 
2.43.0


From 4ce631e170466a0ef4ecf9d2bf444108b572103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 45/50] fix: logo without comments when comment=False

---
 src/magnopy/_pinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/_pinfo.py b/src/magnopy/_pinfo.py
index b4442ee..ecaa170 100644
--- a/src/magnopy/_pinfo.py
+++ b/src/magnopy/_pinfo.py
@@ -102,8 +102,8 @@ def logo(info=None, line_length=None, flat=False, date_time=False, comment=None)
         line_length = N
     if line_length < N:
         line_length = N
-    if isinstance(comment, bool) and comment:
-        comment = "# "
+    if isinstance(comment, bool):
+        comment = "# " if comment else ""
     elif comment is not None:
         comment = str(comment)
     else:
-- 
2.43.0


From 5ac556749bca62ff2fe3063563e45b9aba43e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:51 +0000
Subject: [PATCH 46/50] fix: magnon energies of the negative semidefinite form

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 18640e8..d26bef7 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -321,7 +321,7 @@ class MagnonDispersion:
                     # Try to solve for negative semidefinite matrix
                     try:
                         omegas, G = solve_via_colpa(
-                            -h - np.diag(1e-8 * np.ones(h.shape[0]))
+                            -h + np.diag(1e-8 * np.ones(h.shape[0]))
                         )
                         omegas *= -1
                         G *= -1
-- 
2.43.0


From d7da857844543fd4bb14b94374e7b7983cc6922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:30 +0000
Subject: [PATCH 47/50] fix: refuse a standardization of the cell that changes
 the lattice

For base-centered monoclinic lattices with b > c the transformation matrix
of the standardization has half-integer elements. Vectors of bonds were
rounded and the Hamiltonian was silently replaced with a different one.
---
 src/magnopy/spinham/hamiltonian.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index f55b69a..7c5dc9a 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -970,11 +970,23 @@ class SpinHamiltonian(Crystal):
 
         Exchange bonds and spiral vector are given in the relative coordinates,
         therefore, they are recalculated for the standardized cell.
+
+        Raises
+        ------
+        ValueError
+            If the standardized cell is not a cell of the same lattice.
         """
 
         # Get S matrix before cell standardization
         S = self.S_matrix
 
+        # Bonds connect the cells of the same lattice only if S is an integer matrix
+        if not np.allclose(S, np.rint(S)):
+            raise ValueError(
+                "Standardized cell does not describe the same lattice, "
+                f"therefore, the cell can not be standardized. S matrix is {S.tolist()}."
+            )
+
         super().standardize()
 
         self._exchange = {
-- 
2.43.0


From 80a1df35f74c74b637853bb24658a0047e9c8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:02 +0000
Subject: [PATCH 48/50] fix: write the symmetric part of on-site parameters to
 the text file

---
 src/magnopy/io/txt/internal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index a7ad0cb..bc77895 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -283,9 +283,11 @@ def dump_spinham_txt(
         text.append(SUBSEPARATOR)
         for atom, parameter in spinham.on_site:
             text.append(atom.name)
+            # Only the symmetric part has a meaning for the on-site parameter
+            symm = parameter.symm_matrix
             text.append(
-                f"{parameter.xx:>8.4f} {parameter.yy:>8.4f} {parameter.zz:>8.4f} "
-                + f"{parameter.xy:>8.4f} {parameter.xz:>8.4f} {parameter.yz:>8.4f}"
+                f"{symm[0][0]:>8.4f} {symm[1][1]:>8.4f} {symm[2][2]:>8.4f} "
+                + f"{symm[0][1]:>8.4f} {symm[0][2]:>8.4f} {symm[1][2]:>8.4f}"
             )
             text.append(SUBSEPARATOR)
         text.append(SEPARATOR)
-- 
2.43.0


From 9a975f423f90a5bf0b171b01a49a86a98e9c8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 49/50] fix: start the history of each minimization from the
 new line of the file

---
 src/magnopy/spinham/energy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 43b4268..e69d530 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -426,7 +426,8 @@ def _default_history_processor_ferro(history, filename=None, nspins=None):
             print(header, flush=True)
         else:
             with open(filename, "a") as file:
-                file.write(header)
+                # File might contain the history of the previous run
+                file.write(("\n" if file.tell() > 0 else "") + header)
     else:
         for i in range(len(history)):
             history[i] = (
@@ -460,7 +461,8 @@ def _default_history_processor_antiferro(history, filename=None, nspins=None):
             print(header, flush=True)
         else:
             with open(filename, "a") as file:
-                file.write(header)
+                # File might contain the history of the previous run
+                file.write(("\n" if file.tell() > 0 else "") + header)
     else:
         for i in range(len(history)):
             history[i] = (
@@ -500,7 +502,8 @@ def _default_history_processor_spiral(history, filename=None, nspins=None):
             print(header, flush=True)
         else:
             with open(filename, "a") as file:
-                file.write(header)
+                # File might contain the history of the previous run
+                file.write(("\n" if file.tell() > 0 else "") + header)
     else:
         for i in range(len(history)):
             history[i] = (
-- 
2.43.0


From 636cd3f45fbbee535eafc95206ef34ad58158831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 50/50] fix: write the rest of the history when the maximum of
 iterations is reached

---
 src/magnopy/spinham/energy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index e69d530..1e1f1b2 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1583,6 +1583,9 @@ class Energy:
                     f"Torques: {torque_targets}, "
                     f"Energy difference: {energy_diff:.5e}."
                 )
+                # Output remaining part of history
+                if save_history and len(history) > 0:
+                    history_processor(history, filename=history_filename)
                 return _unpack(x)
 
             # Compute gradient and torques
-- 
2.43.0

