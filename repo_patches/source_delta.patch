From 7ab6765422b624a35c81f18f8a02c5c55c22a66b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 01/12] fix: make sequences created from an array editable

UnitarySequence accepts its entries as a numpy array but kept the array,
so appending, removing and inverting raised AttributeError.
---
 stoqcompiler/unitary/unitary_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index 897e003..2b14c2c 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -35,7 +35,7 @@ class UnitarySequence:
                 or isinstance(sequence_entries, np.ndarray))
         [self._assert_is_entry_valid(entry) for entry in sequence_entries]
 
-        self.sequence_entries = copy.deepcopy(sequence_entries)
+        self.sequence_entries = copy.deepcopy(list(sequence_entries))
         self.sequence_product = None
 
         self.previous_entries = None
-- 
2.43.0


From 78fe3e64d89fe52475264706d7c6a307c9a70c35 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 02/12] fix: invert every occurrence of a repeated sequence
 entry exactly once

The deep copy taken by UnitarySequence.inverse() keeps repeated entry
objects shared, so an entry occurring n times was inverted n times.
---
 stoqcompiler/unitary/unitary_sequence.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index 2b14c2c..e0f4e5e 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -255,12 +255,9 @@ class UnitarySequence:
         :return: The inverse sequence.
         :rtype: UnitarySequence.
         '''
-        inverse_sequence = UnitarySequence(
-            self.get_dimension(), self.get_sequence_entries())
-        inverse_sequence.sequence_entries.reverse()
-        for entry in inverse_sequence.sequence_entries:
-            entry.unitary = entry.unitary.inverse()
-            entry.full_unitary_by_dimension = {}
+        inverse_sequence = UnitarySequence(self.get_dimension(), [
+            UnitarySequenceEntry(entry.unitary.inverse(), entry.get_apply_to())
+            for entry in reversed(self.sequence_entries)])
         inverse_sequence.sequence_product = self.product().inverse()
         return inverse_sequence
 
-- 
2.43.0


From 357f91178c82593fdcd682c68e2c336a8cd45f73 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 03/12] fix: keep the inverse mark when a gate is placed on
 qubits

The display output of an inverted sequence showed the gates of the
original, without the dagger that Unitary.get_display_name() gives.
---
 stoqcompiler/unitary/unitary_sequence_entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index 720ea99..0aba347 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -164,6 +164,7 @@ class UnitarySequenceEntry:
                 full_matrix,
                 operation_name,
                 self.unitary.parameter_dict,
+                is_inverse=self.unitary.is_inverse,
                 apply_to=self.get_apply_to())
 
         return self.full_unitary_by_dimension[system_dimension]
-- 
2.43.0


From f1b0d9d6a5f7ed291e0401833315217eb0be4bec Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 04/12] fix: display randomly placed qubits as plain integers

Placements chosen by the compiler hold numpy integers, which numpy 2
shows as np.int64(0) in the display name.
---
 stoqcompiler/unitary/unitary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary.py b/stoqcompiler/unitary/unitary.py
index 5dbbe85..104f4f7 100644
--- a/stoqcompiler/unitary/unitary.py
+++ b/stoqcompiler/unitary/unitary.py
@@ -192,7 +192,8 @@ class Unitary:
 
         display_name = self.operation_name
         if len(self.apply_to) > 0:
-            display_name += str(self.apply_to)
+            display_name += "[" + ", ".join(
+                str(q) for q in self.apply_to) + "]"
         if len(self.parameter_dict) > 0:
             display_name += "(" + ", ".join(
                 k + "=" + (as_pi_fraction(v[0]) if v[1] else as_decimal(v[0]))
-- 
2.43.0


From 78ee57e1bbd24407e41c696d5bcd9c9e4b831a1d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 05/12] fix: let close_to() accept an exact match at threshold
 1.0

A threshold of 1.0 means an exact match, like no threshold at all, but
rounding in the distance made even a unitary not close to itself, so a
compilation with threshold 1.0 could never finish.
---
 stoqcompiler/unitary/unitary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary.py b/stoqcompiler/unitary/unitary.py
index 104f4f7..ffbae82 100644
--- a/stoqcompiler/unitary/unitary.py
+++ b/stoqcompiler/unitary/unitary.py
@@ -299,7 +299,7 @@ class Unitary:
         distance = self.distance_from(u)
         if threshold is not None:
             max_distance = 1.0 - threshold
-            return distance <= max_distance
+            return distance <= max_distance or np.isclose(distance, 0.0)
 
         return np.isclose(distance, 0.0)
 
-- 
2.43.0


From 0dcd98f797caa89f2d881f9f53af2c4adae083da Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 06/12] fix: compile with primitives given as an array

The constructor accepts an array, but the truth value of one with
several elements is ambiguous, so compile() raised ValueError.
---
 stoqcompiler/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index d8f1c59..2a7c4c0 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -98,7 +98,7 @@ class Compiler:
         :rtype: CompilerResult
         '''
         assert isinstance(target_unitary, Unitary)
-        assert self.unitary_primitives
+        assert len(self.unitary_primitives) > 0
 
         initial_time = time.perf_counter()
         compiled_sequence, cost_by_step = self._compile(
-- 
2.43.0


From fde2a4b1a0a64d8a941e98acda29032474a78800 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 07/12] fix: start annealing afresh for every compilation

The inverse temperature was kept in the compiler after a compilation, so
a later one with the same compiler started where the earlier one ended.
---
 stoqcompiler/compiler/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 2a7c4c0..ed6186a 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -166,6 +166,7 @@ class Compiler:
         '''
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
+        self.beta = 0.0
 
         while (not compiled_sequence.product().close_to(
                 target_unitary, threshold)
@@ -256,6 +257,7 @@ class Compiler:
         '''
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
+        self.beta = 0.0
 
         while (not compiled_sequence.product().close_to(
                 target_unitary, threshold)
-- 
2.43.0


From 0ca19f932f504b4e69f2e013c05eba34793b67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 08/12] fix: keep probabilities in step with the primitives
 that can be placed

Primitives with an empty allowed_apply_to list are left out of the
random choice, but their probabilities were not, which raised ValueError.
---
 stoqcompiler/compiler/compiler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index ed6186a..78dd424 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -215,10 +215,18 @@ class Compiler:
         '''
         # choose from unitary_primitives where the allowed_apply_to list
         # is not empty
+        is_allowed = [
+            u.get_allowed_apply_to() is None
+            or len(u.get_allowed_apply_to()) > 0
+            for u in unitary_primitives]
         unitary_primitives = [
-            u for u in unitary_primitives
-            if (u.get_allowed_apply_to() is None
-                or len(u.get_allowed_apply_to()) > 0)]
+            u for u, allowed in zip(unitary_primitives, is_allowed)
+            if allowed]
+        if probabilities is not None and not np.all(is_allowed):
+            probabilities = np.array([
+                p for p, allowed in zip(probabilities, is_allowed)
+                if allowed])
+            probabilities = probabilities / np.sum(probabilities)
 
         # randomly choose one of the unitary primitives and assign random
         # parameter values
-- 
2.43.0


From e698ebc5e23b5760273207e274c25882d1ab260a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 09/12] fix: reject non-Hermitian Hamiltonian terms of any
 scale

The absolute tolerance of the Hermiticity check let through every matrix
with elements below 1e-8, giving a non-Hermitian normalized matrix.
---
 stoqcompiler/hamiltonian/hamiltonian_term.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stoqcompiler/hamiltonian/hamiltonian_term.py b/stoqcompiler/hamiltonian/hamiltonian_term.py
index c49d4ca..e4527e9 100644
--- a/stoqcompiler/hamiltonian/hamiltonian_term.py
+++ b/stoqcompiler/hamiltonian/hamiltonian_term.py
@@ -41,6 +41,8 @@ class HamiltonianTerm:
 
         # validate that we did the normalization correctly
         assert np.allclose(matrix, self.get_matrix())
+        assert np.allclose(
+            self.normalized_matrix, self.normalized_matrix.T.conj())
 
     def get_dimension(self) -> int:
         '''
-- 
2.43.0


From 6907b2d1f1ab9068d9e58563b401b15314091ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 10/12] fix: accept a threshold of None for RAV sequences as
 documented

---
 stoqcompiler/verification/verification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stoqcompiler/verification/verification.py b/stoqcompiler/verification/verification.py
index 63b1e7e..4191e11 100644
--- a/stoqcompiler/verification/verification.py
+++ b/stoqcompiler/verification/verification.py
@@ -66,7 +66,7 @@ class Verification:
             primitive.get_unitary().get_dimension() <= dimension
             for primitive in unitary_primitives])
         assert sequence_length >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert threshold is None or (threshold >= 0.0 and threshold <= 1.0)
 
         # Generate a random sequence of the desired length
         random_sequence = UnitarySequence(dimension)
@@ -146,7 +146,7 @@ class Verification:
             isinstance(count, int)
             for count in unitary_primitive_counts.values()])
         assert layer_count >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert threshold is None or (threshold >= 0.0 and threshold <= 1.0)
 
         # Generate a random sequence of the desired number of layers
         # Total sequence length will therefore be
-- 
2.43.0


From b48a71fdbb57e5249a2b130adfd839c4b7b03d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 11/12] fix: annealing limit does not overflow for NumPy
 integer dimensions

---
 stoqcompiler/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 78dd424..4079f7b 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -66,7 +66,7 @@ class Compiler:
         self.unitary_primitives = copy.deepcopy(unitary_primitives)
         self.unitary_primitive_probabilities = copy.deepcopy(
             unitary_primitive_probabilities)
-        self.max_beta = (2**dimension) ** 2
+        self.max_beta = (2**int(dimension)) ** 2
         self.beta = 0.0
         self.annealing_rate = annealing_rate
         self.append_probability = append_probability
-- 
2.43.0


From 60e557a23da5492b256e5f7a3554dbf02a795aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 12/12] fix: time evolution is computed in double precision for
 any Hamiltonian matrix type

---
 stoqcompiler/unitary/unitary_definitions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_definitions.py b/stoqcompiler/unitary/unitary_definitions.py
index e18ad03..d801381 100644
--- a/stoqcompiler/unitary/unitary_definitions.py
+++ b/stoqcompiler/unitary/unitary_definitions.py
@@ -284,6 +284,7 @@ class UnitaryDefinitions:
         dimension = h_matrix.shape[0]
         parameter_dict = {"t": (t, False)}
         operation_name = "H" + str(h_suffix)
+        exponent = 1j * h_matrix.astype(np.complex128) * t
         return Unitary(
-            dimension, scipy.linalg.expm(1j * h_matrix * t),
+            dimension, scipy.linalg.expm(exponent),
             operation_name, parameter_dict)
-- 
2.43.0

