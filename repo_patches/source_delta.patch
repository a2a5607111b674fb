From cbfe7f0214cf4f876e8314430cd42f30f168ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 01/59] fix: give the adjoint of an atomic moment the name and
 symbol of the word it denotes

The name of a conjugated factor used a different spelling (and kept the
symbol of the original), so the name of one and the same moment depended
on whether it or its conjugate was met first.
---
 inflation/sdp/monomial_classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index 2e553cf..bd5a0ea 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -8,6 +8,7 @@ import numpy as np
 from functools import total_ordering, cached_property
 from typing import Tuple
 
+from .monomial_utils import symbol_from_atom_name
 from ..lp.monomial_classes import InternalAtomicMonomial as InternalAtomicMonomialLP
 from ..lp.monomial_classes import CompoundMoment as CompoundMomentLP
 
@@ -99,8 +100,9 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
             dagger.as_lexmon = self.conjugate_lexmon
             dagger.signature = (self.n_operators, tuple(self.conjugate_lexmon))
             dagger.as_2d_array = self.context._lexorder[self.conjugate_lexmon]
-            dagger.name = "<" + " ".join(
-                self.context._lexrepr_to_names[dagger.as_lexmon]) + ">"
+            dagger.name = dagger._name
+            dagger.legacy_name = dagger._raw_name
+            dagger.symbol = symbol_from_atom_name(dagger.name)
             return dagger
         
 class CompoundMomentSDP(CompoundMomentLP):
-- 
2.43.0


From d5c0470456062c83e105cca98567c7a9df10e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 02/59] fix: accept moment names of the form "P[...]" that are
 not yet registered

The check for the opening "P[" compared a one-character slice, so probability
names of more than one operator in a different spelling were rejected.
---
 inflation/lp/InflationLP.py   | 2 +-
 inflation/sdp/InflationSDP.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index cdffe12..31993a3 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1194,7 +1194,7 @@ class InflationLP(object):
         except (KeyError, AttributeError):
             pass
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f5eb1f4..f6d7685 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1696,7 +1696,7 @@ class InflationSDP:
         except (KeyError, AttributeError):
             pass
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
-- 
2.43.0


From 97a360d21f8920c61f00f29c9394ae553c3a0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 03/59] fix: read a product of moment names as a product of
 expectation values

A product of moments in a spelling that is not registered was read as the
expectation value of the product of the operators in it, so that for example
"P[B=0]*P[A=0]" became P[A=0 B=0], and "P[A=0]*P[A=0]" became P[A=0].
---
 inflation/lp/InflationLP.py   | 52 +++++++++++++++++++++++++----------
 inflation/sdp/InflationSDP.py | 39 ++++++++++++++++++++++++--
 2 files changed, 73 insertions(+), 18 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 31993a3..c2b606f 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1071,18 +1071,7 @@ class InflationLP(object):
                               sp.core.power.Pow,
                               sp.core.mul.Mul,
                               sp.core.symbol.Expr)):
-            try:
-                return self.monomial_from_symbol[mon]
-            except KeyError:
-                symbols = flatten_symbolic_powers(mon)
-                if len(symbols) == 1:
-                    try:
-                        return self.monomial_from_name[str(symbols[0])]
-                    except KeyError:
-                        pass
-                array = np.concatenate([self._interpret_atomic_string(str(op))
-                                        for op in symbols])
-                return self._sanitise_monomial(array)
+            return self._sanitise_monomial(self._interpret_name(mon))
         elif isinstance(mon, (tuple, list, np.ndarray)):
             array = np.asarray(mon, dtype=self.np_dtype)
             assert array.ndim <= 2, \
@@ -1160,20 +1149,53 @@ class InflationLP(object):
             try:
                 return self.monomial_from_name[monomial]
             except KeyError:
-                factors = monomial.split("*")
+                factors = []
+                for factor in monomial.split("*"):
+                    base, _, power = factor.rpartition("^")
+                    if power.isdecimal():
+                        factors.extend([base] * int(power))
+                    else:
+                        factors.append(factor)
         elif isinstance(monomial, tuple) or isinstance(monomial, list):
             factors = [str(factor) for factor in monomial]
         elif isinstance(monomial, sp.core.symbol.Expr):
             try:
                 return self.monomial_from_symbol[monomial]
             except KeyError:
-                factors = [str(factor)
-                           for factor in flatten_symbolic_powers(monomial)]
+                factors = [
+                    self.monomial_from_symbol[factor].name
+                    if factor in self.monomial_from_symbol else str(factor)
+                    for factor in flatten_symbolic_powers(monomial)]
         else:
             raise Exception(f'Cannot interpret monomial with name {monomial} of type {type(monomial)}')
+        if len(factors) > 1 and any(map(self._is_moment_name, factors)):
+            # A product of expectation values, not the expectation value of a
+            # product of operators
+            return self._monomial_from_atoms(
+                [atom for factor in factors
+                 for atom in self._sanitise_monomial(factor).factors])
         return np.vstack(tuple(self._interpret_atomic_string(factor_string)
                                for factor_string in factors))
 
+    def _is_moment_name(self, name: str) -> bool:
+        """Check whether a string denotes the expectation value of a product of
+        operators (e.g., ``"P[A=0]"`` or ``"<A_1_1_0_0>"``) instead of denoting
+        an operator.
+
+        Parameters
+        ----------
+        name : str
+            The string to be checked.
+
+        Returns
+        -------
+        bool
+            Whether the string denotes an expectation value.
+        """
+        return (name in self.monomial_from_name
+                or name[:1] + name[-1:] == "<>"
+                or name[:2] + name[-1:] in {"P[]", "p[]", "P()", "p()"})
+
     def _interpret_atomic_string(self, factor_string: str) -> np.ndarray:
         """Build a 2D array encoding of a moment that cannot be further
         factorised into products of other moments.
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f6d7685..f4b2876 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1662,20 +1662,53 @@ class InflationSDP:
             try:
                 return self.monomial_from_name[monomial]
             except KeyError:
-                factors = monomial.split("*")
+                factors = []
+                for factor in monomial.split("*"):
+                    base, _, power = factor.rpartition("^")
+                    if power.isdecimal():
+                        factors.extend([base] * int(power))
+                    else:
+                        factors.append(factor)
         elif isinstance(monomial, (tuple, list)):
             factors = [str(factor) for factor in monomial]
         elif isinstance(monomial, sp.core.symbol.Expr):
             try:
                 return self.monomial_from_symbol[monomial]
             except KeyError:
-                factors = [str(factor)
-                           for factor in flatten_symbolic_powers(monomial)]
+                factors = [
+                    self.monomial_from_symbol[factor].name
+                    if factor in self.monomial_from_symbol else str(factor)
+                    for factor in flatten_symbolic_powers(monomial)]
         else:
             raise Exception(f'Cannot interpret monomial with name {monomial} of type {type(monomial)}')
+        if len(factors) > 1 and any(map(self._is_moment_name, factors)):
+            # A product of expectation values, not the expectation value of a
+            # product of operators
+            return self._monomial_from_atoms(
+                [atom for factor in factors
+                 for atom in self._sanitise_moment(factor).factors])
         return np.vstack(tuple(self._interpret_atomic_string(factor_string)
                                for factor_string in factors))
 
+    def _is_moment_name(self, name: str) -> bool:
+        """Check whether a string denotes the expectation value of a product of
+        operators (e.g., ``"P[A=0]"`` or ``"<A_1_1_0_0>"``) instead of denoting
+        an operator.
+
+        Parameters
+        ----------
+        name : str
+            The string to be checked.
+
+        Returns
+        -------
+        bool
+            Whether the string denotes an expectation value.
+        """
+        return (name in self.monomial_from_name
+                or name[:1] + name[-1:] == "<>"
+                or name[:2] + name[-1:] in {"P[]", "p[]", "P()", "p()"})
+
     def _interpret_atomic_string(self, factor_string: str) -> np.ndarray:
         """Build a 2D array encoding of a moment that cannot be further
         factorised into products of other moments.
-- 
2.43.0


From ac5bd7777437a9efec6a391bb8158646262c09c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 04/59] fix: accept the names of operators whose setting
 includes the outcomes of other parties

The names of such operators, as given by the problem and by
build_columns(..., symbolic=True), were rejected.
---
 inflation/lp/InflationLP.py   | 2 ++
 inflation/sdp/InflationSDP.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index c2b606f..599b027 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1215,6 +1215,8 @@ class InflationLP(object):
             return self.atom_from_name[factor_string].as_2d_array
         except (KeyError, AttributeError):
             pass
+        if factor_string in self.op_from_name:
+            return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
                 or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f4b2876..401fa60 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1728,6 +1728,8 @@ class InflationSDP:
             return self.atom_from_name[factor_string].as_2d_array
         except (KeyError, AttributeError):
             pass
+        if factor_string in self.op_from_name:
+            return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
                 or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
-- 
2.43.0


From 76eb7b7bc2d6aea93576a799052073d1d65f1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 05/59] fix: merge moment matrix indices that denote the same
 moment

If the generating set is not closed under source swaps, generate_relaxation
warns that some symmetries are not implemented, but then failed an assertion
whenever two indices denoted moments equal by one of those symmetries.
---
 inflation/sdp/InflationSDP.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 401fa60..7e15537 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -344,6 +344,22 @@ class InflationSDP:
         self.momentmatrix_has_a_zero, self.momentmatrix_has_a_one = \
             np.isin([0, 1], self.momentmatrix.ravel())
 
+        # If some symmetries could not be implemented, different indices can
+        # denote the same moment. Merge them.
+        moment_idxs = dict()
+        merged_idxs = np.arange(self.momentmatrix.max(initial=0) + 1)
+        for idx, lexmon in self.symmetrized_corresp.items():
+            merged_idxs[idx] = moment_idxs.setdefault(self.Moment_1d(lexmon),
+                                                      len(moment_idxs) + 1)
+        if len(moment_idxs) < len(self.symmetrized_corresp):
+            self.momentmatrix = merged_idxs[self.momentmatrix]
+            self.orbits = {old_idx: merged_idxs[idx]
+                           for old_idx, idx in self.orbits.items()}
+            lexmons = self.symmetrized_corresp
+            self.symmetrized_corresp = dict()
+            for idx, lexmon in lexmons.items():
+                self.symmetrized_corresp.setdefault(merged_idxs[idx], lexmon)
+
         # Associate Monomials to the remaining entries. The zero monomial is
         # not stored during calculate_momentmatrix
         self.compmoment_from_idx = dict()
-- 
2.43.0


From 21305a10772f9516d1e1ef7f9266188328ad6ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 06/59] fix: lower-bound by zero only the moments of positive
 operators

Moments that equal their conjugate only up to a relabelling of the sources,
e.g. <A_1_1 A_1_2 A_1_1 A_1_2> with two quantum sources, can be negative, so
the default bound excluded behaviours that can be realised.
---
 inflation/sdp/InflationSDP.py     | 19 ++++++++++++++++++-
 inflation/sdp/monomial_classes.py | 19 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 7e15537..a25b6d8 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -389,7 +389,7 @@ class InflationSDP:
             self.hermitian_moments = self.moments
         else:
             self.hermitian_moments = [mon for mon in self.moments
-                                      if mon.is_hermitian]
+                                      if mon.is_positive]
             if self.verbose > 1:
                 print(f"The problem has {len(self.hermitian_moments)} " +
                       "non-negative moments.")
@@ -1470,6 +1470,23 @@ class InflationSDP:
             return self._to_inflation_repr_1d(reverse_mon(lexmon),
                                               apply_only_commutations)
 
+    def _reversed_lexmon(self, lexmon: np.ndarray) -> np.ndarray:
+        """Get the canonical form under commutations, but not under inflation
+        symmetries, of the adjoint of a product of operators.
+
+        Parameters
+        ----------
+        lexmon : numpy.ndarray
+            The product of operators, as a 1d array.
+
+        Returns
+        -------
+        numpy.ndarray
+            The adjoint of the product, as a 1d array.
+        """
+        return self._to_canonical_memoized_1d(reverse_mon(lexmon),
+                                              apply_only_commutations=True)
+
     def _construct_mask_matrices(self) -> None:
         """Helper a function to associate each monomial appearing in the moment
         matrix with a unique mask matrix, as this is relevant to expressing an
diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index bd5a0ea..d19b010 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -90,6 +90,17 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
          under inflation symmetries and commutation."""
         return np.array_equal(self.as_lexmon, self.conjugate_lexmon)
 
+    @cached_property
+    def is_positive(self) -> bool:
+        """Whether the product of operators itself is self-adjoint (and, being
+        a product of projectors, positive), rather than only equivalent to its
+        conjugate under inflation symmetries."""
+        if self.is_all_commuting:
+            return True
+        else:
+            return np.array_equal(
+                self.as_lexmon, self.context._reversed_lexmon(self.as_lexmon))
+
     @property
     def dagger(self):
         """Returns the adjoint of the Monomial."""
@@ -146,4 +157,10 @@ class CompoundMomentSDP(CompoundMomentLP):
     def is_hermitian(self):
         """If all factors of the compount moment contain monomials that are 
         hermitian."""
-        return all(factor.is_hermitian for factor in self.factors)
\ No newline at end of file
+        return all(factor.is_hermitian for factor in self.factors)
+
+    @cached_property
+    def is_positive(self):
+        """Returns whether all the factors are expectation values of positive
+        operators."""
+        return all(factor.is_positive for factor in self.factors)
-- 
2.43.0


From 935a8721f7d13c465db75b164da5a2f63af2642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 07/59] fix: number the independent parts of a moment with more
 than eight bits

Moments of more than 256 independent parts lost parts when factorised.
---
 inflation/sdp/fast_npa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inflation/sdp/fast_npa.py b/inflation/sdp/fast_npa.py
index a0a8ae0..529c505 100644
--- a/inflation/sdp/fast_npa.py
+++ b/inflation/sdp/fast_npa.py
@@ -115,8 +115,8 @@ def nb_classify_disconnected_components(adj_mat: np.ndarray) -> np.ndarray:
     # See https://stackoverflow.com/a/9112588 for inspiration of the method
     n = len(adj_mat)
     if n <= 1 or adj_mat.all():
-        return np.zeros((n,), dtype=uint8_)
-    component_labels = np.zeros((n,), dtype=uint8_)
+        return np.zeros((n,), dtype=int_)
+    component_labels = np.zeros((n,), dtype=int_)
     component_counter = 1
     for i in range(n):
         if not component_labels[i]:
@@ -132,7 +132,7 @@ def nb_classify_disconnected_components(adj_mat: np.ndarray) -> np.ndarray:
                 search_next = np.logical_xor(new_component, old_component)
             component_labels[new_component] = component_counter
             component_counter += 1
-    return (component_labels-1).astype(np.uint8)
+    return (component_labels-1).astype(np.intc)
 
 
 @jit(nopython=nopython, cache=cache, forceobj=not nopython)
@@ -243,7 +243,7 @@ def nb_monomial_to_components(monomial: np.ndarray) -> np.ndarray:
     """
     n = len(monomial)
     if n <= 1:
-        return np.zeros(n, dtype=uint8_)
+        return np.zeros(n, dtype=int_)
     return nb_classify_disconnected_components(nb_overlap_matrix(
         monomial[:, 1:-2]))
 
-- 
2.43.0


From bccde11fb2197935ed8481040c2c1708451c00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 08/59] fix: accept cardinalities and inflation levels given as
 numpy arrays

They are documented as accepted, but their truth value was used to check
whether they had been provided.
---
 inflation/InflationProblem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index a90b59d..4073b94 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -86,11 +86,11 @@ class InflationProblem:
         self.verbose = verbose
 
         # Read settings and outcomes
-        if not outcomes_per_party:
+        if outcomes_per_party is None or len(outcomes_per_party) == 0:
             raise ValueError("Please provide outcomes per party.")
         self.outcomes_per_party = np.array(outcomes_per_party, dtype=int)
         self.nr_parties         = len(self.outcomes_per_party)
-        if not settings_per_party:
+        if settings_per_party is None or len(settings_per_party) == 0:
             if self.verbose > 0:
                 warn("No settings per party provided, " +
                      "assuming all parties have one setting.")
@@ -273,7 +273,7 @@ class InflationProblem:
         assert np.sum(self.hypergraph, axis=0).all(), \
             ("There appears to be a party with no sources in its past. This is not allowed.")
 
-        if not inflation_level_per_source:
+        if not np.any(inflation_level_per_source):
             if self.verbose > 0:
                 warn("The inflation level per source must be a non-empty list."
                      + " Defaulting to 1 (no inflation, just NPA hierarchy).")
-- 
2.43.0


From 8b9256d8871b3de69b41c36628c5c6152052828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 09/59] fix: reject scenarios with directed cycles or with
 nonpositive cardinalities

They were accepted silently, and read as a different scenario.
---
 inflation/InflationProblem.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index 4073b94..77afb77 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -105,6 +105,10 @@ class InflationProblem:
                  + "These lists must have the same length and equal to the "
                  + "number of visible variables in the scenario.")
 
+        assert np.all(self.outcomes_per_party > 0) \
+            and np.all(self.private_settings_per_party > 0), \
+            "The numbers of outcomes and of settings must be positive."
+
         # Record expected shape of input distributions
         self.expected_distro_shape = tuple(np.hstack(
             (self.outcomes_per_party,
@@ -219,6 +223,15 @@ class InflationProblem:
                 jj = names_to_integers[child]
                 adjacency_matrix[ii, jj] = True
 
+        # Check that the graph is acyclic: there is an order in which all
+        # observed nodes come after their observed parents
+        unordered = np.ones(self.nr_parties, dtype=bool)
+        for _ in range(self.nr_parties):
+            unordered = np.logical_and(
+                unordered, adjacency_matrix[unordered].any(axis=0))
+        assert not unordered.any(), \
+            "The DAG contains a directed cycle of observed nodes."
+
         # Compute number of settings for the unpacked variables
         self.parents_per_party = list(map(np.flatnonzero, adjacency_matrix.T))
         settings_per_party_lst = [[s] for s in self.private_settings_per_party]
@@ -290,6 +303,9 @@ class InflationProblem:
                  "inflation levels specified, " +
                  f"{len(self.inflation_level_per_source)}, does not coincide.")
 
+        assert np.all(self.inflation_level_per_source > 0), \
+            "The inflation levels must be positive."
+
         # Determine if the inflation problem has a factorizing pair of parties.
         shared_sources = [np.all(np.vstack(pair), axis=0) for pair in
                           combinations_with_replacement(self.hypergraph.T, 2)]
-- 
2.43.0


From 68b2bc6a6d5d0960e9fe9a19bd954a12b8825057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 10/59] fix: reject intermediate latents that have no source as
 parent

---
 inflation/InflationProblem.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index 77afb77..479fe0d 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -192,6 +192,15 @@ class InflationProblem:
                     self._classical_sources[ii] = 1
         self._nonclassical_sources = np.logical_not(self._classical_sources).astype(np.uint8)
 
+        # A latent node without parents is a source, not an intermediate latent.
+        children_of_sources = set(chain.from_iterable(
+            self.dag[source] for source in self._actual_sources))
+        parentless_latents = self.intermediate_latents.intersection(
+            nodes_with_children).difference(children_of_sources)
+        assert not parentless_latents, (
+            "The following intermediate latents are not children of any " +
+            f"source: {parentless_latents}")
+
         # Test if any quantum intermediate latent has fully classical parents.
         # This case is not yet supported.
         is_classical_source = dict(zip(self._actual_sources,
-- 
2.43.0


From d67068377d29d3a1bfd611902f77cc0764e838cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 11/59] fix: read arrays of operators without wrapping around
 or truncating their entries

---
 inflation/lp/InflationLP.py   | 16 ++++++++--------
 inflation/sdp/InflationSDP.py |  5 +++--
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 599b027..0af20f8 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1073,16 +1073,16 @@ class InflationLP(object):
                               sp.core.symbol.Expr)):
             return self._sanitise_monomial(self._interpret_name(mon))
         elif isinstance(mon, (tuple, list, np.ndarray)):
-            array = np.asarray(mon, dtype=self.np_dtype)
-            assert array.ndim <= 2, \
+            array = np.asarray(mon)
+            assert array.ndim in {1, 2}, \
                 "The monomial representations must be 1d or 2d arrays."
+            # The number of operators can exceed the range of self.np_dtype
+            array = array.astype(self.np_dtype if array.ndim == 2 else np.intc)
+            assert np.array_equal(array, mon) and np.all(array >= 0), \
+                "The input does not conform to the operator specification."
             if array.ndim == 2:
-                return self._sanitise_monomial(self.mon_to_lexrepr(array))
-            elif array.ndim == 1:
-                return self.Monomial(array)
-            else:
-                assert array.ndim == 2, \
-                    "The monomial representations must be 2d arrays."
+                array = self.mon_to_lexrepr(array)
+            return self.Monomial(array)
         elif isinstance(mon, str):
             try:
                 return self.monomial_from_name[mon]
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index a25b6d8..dd4ccb8 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1587,10 +1587,11 @@ class InflationSDP:
         elif isinstance(moment, InternalAtomicMonomialSDP):
             return self._monomial_from_atoms([moment])
         elif isinstance(moment, (tuple, list, np.ndarray)):
-            array = np.asarray(moment, dtype=self.np_dtype)
+            array = np.asarray(moment).astype(self.np_dtype)
             assert array.ndim == 2, \
                 "The monomial representations must be 2d arrays."
-            assert array.shape[-1] == self._nr_properties, \
+            assert (array.shape[-1] == self._nr_properties
+                    and np.array_equal(array, moment)), \
                 "The input does not conform to the operator specification."
             canon_lexmon = self._to_canonical_memoized_1d(
                 self.mon_to_lexrepr(array))
-- 
2.43.0


From 5519d2eb81dcbc66ed7c1e20972a64c7b52931b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 12/59] fix: keep the order of the operators in the factors of
 product names

---
 inflation/sdp/InflationSDP.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index dd4ccb8..6e28f4b 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1718,9 +1718,19 @@ class InflationSDP:
         if len(factors) > 1 and any(map(self._is_moment_name, factors)):
             # A product of expectation values, not the expectation value of a
             # product of operators
-            return self._monomial_from_atoms(
-                [atom for factor in factors
-                 for atom in self._sanitise_moment(factor).factors])
+            atoms = []
+            for factor in factors:
+                if factor in self.monomial_from_name:
+                    atoms.extend(self.monomial_from_name[factor].factors)
+                else:
+                    # The moment of the factor would be that of its conjugate
+                    lexmon = self._to_canonical_memoized_1d(
+                        self.mon_to_lexrepr(
+                            self._interpret_atomic_string(factor)))
+                    atoms.extend(
+                        self._AtomicMonomial(part + 1) for part
+                        in self.factorize_moment_1d(lexmon - 1) if len(part))
+            return self._monomial_from_atoms(atoms)
         return np.vstack(tuple(self._interpret_atomic_string(factor_string)
                                for factor_string in factors))
 
-- 
2.43.0


From 2e2974b96529d659b0e5a027189ac92e3e49fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 13/59] fix: treat upper-case names of generating sets as the
 lower-case ones

---
 inflation/sdp/InflationSDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 6e28f4b..353440f 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1187,7 +1187,7 @@ class InflationSDP:
                   or ("physical" in column_specification.lower())):
                 lengths_init = (5 if "local" in column_specification.lower()
                                 else 8)
-                spec    = column_specification[:lengths_init]
+                spec    = column_specification[:lengths_init].lower()
                 lengths = column_specification[lengths_init:]
                 if len(lengths) == 0:
                     if spec == "local":
-- 
2.43.0


From 8463b83e3aeace4ced7dd9fbb28da8d01aa28862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 14/59] fix: accept generating sets given as a list with a
 single array

---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 353440f..6dd28fe 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1129,11 +1129,11 @@ class InflationSDP:
                 # This is the standard specification for the helper
                 columns = self._build_cols_from_specs(column_specification)
             elif type(column_specification[0]) in {np.ndarray}:
-                if len(np.array(column_specification[1]).shape) == 2:
+                if len(np.array(column_specification[-1]).shape) == 2:
                     # This is the 2d encoding, convert it to lexicographic repr
                     columns = [self.mon_to_lexrepr(mon)
                                for mon in column_specification]
-                elif len(np.array(column_specification[1]).shape) == 1:
+                elif len(np.array(column_specification[-1]).shape) == 1:
                     # This is the 1d encoding, make sure the dtype is correct
                     # for compatibility with numba
                     columns = [np.array(mon, dtype=np.intc)
-- 
2.43.0


From db8fcd6ee0b2a74d4128aa06c70c5d1a710e0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 15/59] fix: include the identity only once in generating sets
 given as party blocks

---
 inflation/sdp/InflationSDP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 6dd28fe..a0bb1fb 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1851,8 +1851,9 @@ class InflationSDP:
                           disable=not self.verbose):
             if block == []:
                 _id = self.mon_to_lexrepr(self.identity_operator)
-                seen_columns.add(tuple(_id))
-                columns += [_id]
+                if tuple(_id) not in seen_columns:
+                    seen_columns.add(tuple(_id))
+                    columns += [_id]
             else:
                 meas_ops = [
                     np.nonzero(np.logical_and(
-- 
2.43.0


From 87d2167eef891dd117ce949a6706df87aebc25d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 16/59] fix: with shared randomness, assign values only to
 moments in the moment matrix

---
 inflation/sdp/InflationSDP.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index a0bb1fb..2e8057e 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -593,6 +593,12 @@ class InflationSDP:
         if prob_array is not None:
             knowable_values = {atom: atom.compute_marginal(prob_array)
                                for atom in self.knowable_atoms}
+            if shared_randomness:
+                # Some atoms only appear as factors of other moments
+                present = set(self.moments)
+                knowable_values = {atom: value for atom, value
+                                   in knowable_values.items()
+                                   if atom in present}
         else:
             knowable_values = dict()
 
-- 
2.43.0


From e56c9f77b20422738317786e65136aaa3d802508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 17/59] fix: recalculate the atomic monomials when generating a
 new relaxation

---
 inflation/sdp/InflationSDP.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 2e8057e..8373f5b 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -372,6 +372,13 @@ class InflationSDP:
         self.first_free_idx = max(self.compmoment_from_idx.keys()) + 1
         self.moments = list(self.compmoment_from_idx.values())
         self.monomials = list(self.compmoment_from_idx.values())
+        # Forget the atoms of previous relaxations
+        for attribute in {"atomic_factors",
+                          "atomic_monomials",
+                          "atom_from_name",
+                          "knowable_atoms",
+                          "do_conditional_atoms"}:
+            self.__dict__.pop(attribute, None)
         
         assert all(v == 1 for v in Counter(self.monomials).values()), \
             "Multiple indices are being associated to the same monomial"
-- 
2.43.0


From 32560af0dbc211bdd1dea0589a552b3e8bf5f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 18/59] fix: keep sparse equalities when semiknown variables
 are given as a dictionary

---
 inflation/lp/lp_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 8472b45..cb1de18 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -646,9 +646,9 @@ def convert_dicts(semiknown_vars: Dict = None,
         data = list(sum(data, ()))
         semiknown_mat = coo_array((data, (row, col)),
                                    shape=(nof_semiknown, nof_variables))
-        if "equalities" in sparse_args:
-            sparse_args["equalities"] = vstack(
-                (sparse_args["equalities"], semiknown_mat))
+        equalities = sparse_args.get("equalities", args.get("equalities"))
+        if equalities is not None:
+            sparse_args["equalities"] = vstack((equalities, semiknown_mat))
         else:
             sparse_args["equalities"] = semiknown_mat
     return sparse_args
-- 
2.43.0


From 70bd653964d66d039648328ba9220b29cb1aa006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 19/59] fix: negative lower bounds do not override
 non-negativity in the primal LP

---
 inflation/lp/lp_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index cb1de18..41934b0 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -406,6 +406,7 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
                 if default_non_negative:
                     bkx = np.repeat(mosek.boundkey.lo, nof_primal_variables)
                     bkx[ub_col] = mosek.boundkey.ra
+                    lb_data = np.maximum(lb_data, 0)
                 else:
                     bkx = np.repeat(mosek.boundkey.fr, nof_primal_variables)
                     bkx[np.setdiff1d(lb_col, ub_col)] = mosek.boundkey.lo
-- 
2.43.0


From 137386db19277a4ae555c2a8deefec33547223e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 20/59] fix: LPs without (in)equalities; keep shapes when
 stacking matrices

---
 inflation/lp/lp_utils.py | 6 ++++++
 inflation/utils.py       | 9 ++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 41934b0..97af6e3 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -242,6 +242,12 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
 
             # Initialize constraint matrix
             constraints = vstack((inequalities, equalities))
+            nof_columns = max(mat.shape[-1] for mat in (constraints,
+                                                        objective,
+                                                        known_vars,
+                                                        lower_bounds,
+                                                        upper_bounds))
+            constraints.resize(constraints.shape[0], nof_columns)
 
             nof_primal_inequalities = inequalities.shape[0]
             nof_primal_equalities = equalities.shape[0]
diff --git a/inflation/utils.py b/inflation/utils.py
index bf1fee2..570c2cc 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -162,10 +162,13 @@ def vstack(blocks: tuple, format: str = 'coo') -> sps.coo_array:
                                   shape=(nof_rows, nof_cols)).asformat(format)
         else:
             return sps.vstack(blocks, format)
-    elif nof_blocks == 1:
-        return non_empty[0]
+    nof_cols = max((block.shape[-1] for block in blocks), default=0)
+    if nof_blocks == 1:
+        stacked = non_empty[0].copy()
+        stacked.resize(stacked.shape[0], nof_cols)
+        return stacked.asformat(format)
     else:
-        return sps.coo_array([])
+        return sps.coo_array((0, nof_cols)).asformat(format)
 
 
 def perm_combiner(old_perms: np.ndarray, new_perms: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 18c972ca95ad63f379fd2a6dd68a5ded7b2d9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 21/59] fix: arguments of solveLP that default to None may be
 omitted

---
 inflation/lp/lp_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 97af6e3..27c857d 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -124,6 +124,9 @@ def solveLP(objective: Union[coo_array, Dict] = None,
                                       "arguments are of mixed form."
         solver_args.update(convert_dicts(**solver_args))
     solver_args.pop("semiknown_vars", None)
+    for arg in problem_args:
+        if arg in solver_args and solver_args[arg] is None:
+            del solver_args[arg]
     return solveLP_sparse(**solver_args)
 
 
-- 
2.43.0


From 4eba811b5522279f2a569b05acdb3b35b39d7e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 22/59] fix: zero rows in LP constraint matrices are dropped
 instead of raising

---
 inflation/lp/lp_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 27c857d..186c2c9 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -16,7 +16,7 @@ from ..utils import partsextractor, expand_sparse_vec, vstack
 
 
 def drop_zero_rows(coo_mat: coo_array):
-    """Drops zero rows from a sparse matrix in place.
+    """Drops zero rows from a sparse matrix.
 
     Parameters
     ----------
@@ -26,9 +26,8 @@ def drop_zero_rows(coo_mat: coo_array):
     if len(coo_mat.shape) == 1:
         coo_mat = coo_mat.reshape((1, coo_mat.shape[0]))
     nz_rows, new_row = np.unique(coo_mat.row, return_inverse=True)
-    coo_mat.row = new_row
-    coo_mat = coo_mat.reshape((len(nz_rows), coo_mat.shape[1]))
-    return coo_mat
+    return coo_array((coo_mat.data, (new_row, coo_mat.col)),
+                     shape=(len(nz_rows), coo_mat.shape[1]))
 
 
 def canonical_order(coo_mat: coo_array):
-- 
2.43.0


From 1ee5f9453b6f51fcdb2411115d136df6b8d3bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 23/59] fix: report the full moment matrix when solving the
 dual SDP

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index bfa0b4b..debdba2 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -353,7 +353,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                     ci  = float(var_objective[x])
                     lhs += ci
                 try:
-                    F = Fi.pop(x)
+                    F = Fi[x]
                     lhs = Expr.add(lhs,
                                    Expr.dot(Z,
                                             scipy_to_mosek(F)))
-- 
2.43.0


From 263c5c9b533c1ebede1ff45fc8a870b87593d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 24/59] fix: proportional variables in SDPs, whichever other
 variables they refer to

---
 inflation/sdp/sdp_utils.py | 54 ++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index debdba2..a6e442d 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -211,34 +211,42 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
     F0 = coo_array((mat_dim, mat_dim), dtype=float)
     F0 += sum(known_vars[x] * Fi[x] for x in set(Fi).intersection(known_vars))
 
-    if process_constraints:
-        # For the semiknown constraint x_i = a_i * x_j, add to the Fi of x_j
-        # the expression a_i*(Fi of x_i).
-        for x, (c, x2) in semiknown_vars.items():
-            if mask_matrices:
-                val = Fi.pop(x, 0)
-                Fi[x2] = Fi.get(x2, 0) + c * val
+    # Variables proportional to a variable that is known, or that is itself to
+    # be eliminated, are not eliminated.
+    to_eliminate = {}
+    for x, (c, x2) in semiknown_vars.items():
+        if (process_constraints
+                and x in variables
+                and x2 not in known_vars
+                and x2 not in semiknown_vars
+                and not (default_non_negative and c < 0)):
+            to_eliminate[x] = (c, x2)
+        else:
+            # Just add semiknown constraints as equality constraints.
+            var_equalities.append({x: 1, x2: -c})
+            variables.update({x, x2}.difference(known_vars))
 
-            if var_objective and not feas_as_optim:
-                val = var_objective.pop(x, 0)
-                var_objective[x2] = var_objective.get(x2, 0) + c * val
+    # For the semiknown constraint x_i = a_i * x_j, add to the Fi of x_j
+    # the expression a_i*(Fi of x_i).
+    for x, (c, x2) in to_eliminate.items():
+        if x in Fi:
+            val = Fi.pop(x)
+            Fi[x2] = Fi[x2] + c * val if x2 in Fi else c * val
 
-            for equality in var_equalities:
-                val = equality.pop(x, 0)
-                equality[x2] = equality.get(x2, 0) + c * val
+        if var_objective and not feas_as_optim:
+            val = var_objective.pop(x, 0)
+            var_objective[x2] = var_objective.get(x2, 0) + c * val
 
-            for inequality in var_inequalities:
-                val = inequality.pop(x, 0)
-                inequality[x2] = inequality.get(x2, 0) + c * val
+        for equality in var_equalities:
+            val = equality.pop(x, 0)
+            equality[x2] = equality.get(x2, 0) + c * val
 
-            variables.remove(x)
-            variables.add(x2)
+        for inequality in var_inequalities:
+            val = inequality.pop(x, 0)
+            inequality[x2] = inequality.get(x2, 0) + c * val
 
-    else:
-        # Just add semiknown constraints as equality constraints.
-        for x, (c, x2) in semiknown_vars.items():
-            var_equalities.append({x: 1, x2: -c})
-            variables.add(x2)
+        variables.remove(x)
+        variables.add(x2)
 
     # Calculate c0, the constant part of the var_objective.
     c0 = 0. + float(sum([var_objective[x] * known_vars[x]
-- 
2.43.0


From c8ca11688929b97e5cb3968c814f5d923df7bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 25/59] fix: the smallest eigenvalue is a free variable also
 when variables are non-negative

---
 inflation/sdp/sdp_utils.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index a6e442d..9617fb1 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -253,6 +253,13 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                          for x in set(var_objective).intersection(known_vars)])
                     )
 
+    # The smallest eigenvalue is never restricted to be non-negative.
+    if default_non_negative:
+        non_negative = variables.difference(
+            {lam} if feas_as_optim and mask_matrices else {})
+    else:
+        non_negative = set()
+
     # 'var2index' should be computed after there is no more further modification
     # to 'variables' or any of the constraint or objective dictionaries
     var2index = {x: i for i, x in enumerate(variables)}
@@ -350,11 +357,11 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             # Add constraints
             # ci + Tr Z Fi + \sum_j I_j A_ji + \sum_j E_j C_ji == 0
             ci_constraints = []
-            if default_non_negative:
-                domain = Domain.lessThan(0)
-            else:
-                domain = Domain.equalsTo(0)
             for i, x in enumerate(variables):
+                if x in non_negative:
+                    domain = Domain.lessThan(0)
+                else:
+                    domain = Domain.equalsTo(0)
                 lhs = 0.0
                 if var_objective and x in set(var_objective
                                               ).difference(known_vars):
@@ -378,11 +385,12 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             # Set up the problem in primal formulation
 
             # Define variables
-            if default_non_negative:
-                domain = Domain.greaterThan(0)
-            else:
-                domain = Domain.unbounded()
-            x_mosek = M.variable("x", len(variables), domain)
+            x_mosek = M.variable("x", len(variables), Domain.unbounded())
+            if non_negative:
+                M.constraint("NonNeg",
+                             x_mosek.pick([var2index[x]
+                                           for x in non_negative]),
+                             Domain.greaterThan(0))
 
             if var_inequalities:
                 b_mosek = scipy_to_mosek(b)
-- 
2.43.0


From e144b41297b71cca16a08f9c1c6fc2ffaa9f5486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 26/59] fix: setting values keeps the extra equalities and
 inequalities set by the user

---
 inflation/lp/InflationLP.py   | 10 ++++++++--
 inflation/sdp/InflationSDP.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 0af20f8..53340a3 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -899,6 +899,7 @@ class InflationLP(object):
                 self._reset_objective()
             elif which == "values":
                 self._reset_values()
+                self._reset_extra_constraints()
             else:
                 raise Exception(f"The attribute {which} is not part of " +
                                 "InflationLP.")
@@ -1373,6 +1374,7 @@ class InflationLP(object):
 
         self._set_lowerbounds(None)
         self._set_upperbounds(None)
+        self._reset_extra_constraints()
         self.set_objective(None)
         self.set_values(None)
 
@@ -1737,10 +1739,14 @@ class InflationLP(object):
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         self.known_moments[self.One] = 1.
-        self.extra_equalities = []
-        self.extra_inequalities = []
         collect()
 
+    def _reset_extra_constraints(self) -> None:
+        """Reset the additional constraints specified by the user."""
+        self._reset_solution()
+        self.extra_equalities   = []
+        self.extra_inequalities = []
+
     def _reset_solution(self) -> None:
         """Resets class attributes storing the solution to the LP
         relaxation."""
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 8373f5b..d26b33a 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -430,6 +430,7 @@ class InflationSDP:
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
 
+        self._reset_extra_constraints()
         self.set_objective(None)
         self.set_values(None)
 
@@ -1311,6 +1312,7 @@ class InflationSDP:
                 self._reset_objective()
             elif which == "values":
                 self._reset_values()
+                self._reset_extra_constraints()
             else:
                 raise Exception(f"The attribute {which} is not part of " +
                                 "InflationSDP.")
@@ -2104,10 +2106,14 @@ class InflationSDP:
         if self.momentmatrix_has_a_zero:
             self.known_moments[self.Zero] = 0.
         self.known_moments[self.One] = 1.
-        self.extra_equalities = []
-        self.extra_inequalities = []
         collect()
 
+    def _reset_extra_constraints(self) -> None:
+        """Reset the additional constraints specified by the user."""
+        self._reset_solution()
+        self.extra_equalities   = []
+        self.extra_inequalities = []
+
     def _update_objective(self) -> None:
         """Process the objective with the information from known_moments
         and semiknown_moments.
-- 
2.43.0


From f723d45825a755dedc82c6cd0b0b54188f64658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 27/59] fix: keep constant terms when polynomials are constant
 SymPy expressions

---
 inflation/lp/InflationLP.py   | 2 +-
 inflation/sdp/InflationSDP.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 53340a3..da958d7 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1116,7 +1116,7 @@ class InflationLP(object):
             if input_dict.free_symbols:
                 input_dict_copy = {k: float(v) for k, v in sp.expand(input_dict).as_coefficients_dict().items()}
             else:
-                input_dict_copy = dict()
+                input_dict_copy = {1: float(input_dict)}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index d26b33a..c2cd5f4 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1630,7 +1630,7 @@ class InflationSDP:
                 input_dict_copy = {k: float(v) for k, v in sp.expand(
                     input_dict).as_coefficients_dict().items()}
             else:
-                input_dict_copy = dict()
+                input_dict_copy = {1: float(input_dict)}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
-- 
2.43.0


From 0bd324b6bb29d0ec35ce3178a4f6ead5d38ed6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 28/59] fix: extra equalities and inequalities are part of the
 SDP that is solved

---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index c2cd5f4..1cc963c 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2257,10 +2257,10 @@ class InflationSDP:
                                          in self.semiknown_moments.items()},
                       "equalities": [{mon.name: coeff
                                           for mon, coeff in eq.items()}
-                                     for eq in self.minimal_equalities],
+                                     for eq in self.moment_equalities],
                       "inequalities": [{mon.name: coeff
                                         for mon, coeff in ineq.items()}
-                                       for ineq in self.minimal_inequalities]
+                                       for ineq in self.moment_inequalities]
                       }
         # Add the constant 1 in case of unnormalized problems removed it
         solverargs["known_vars"][self.constant_term_name] = 1.
-- 
2.43.0


From c857e9533359feb3b0a17ef92e984601e7f23d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 29/59] fix: objectives that contain moments proportional to
 other moments

---
 inflation/sdp/InflationSDP.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 1cc963c..fd4b024 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2132,11 +2132,10 @@ class InflationSDP:
                                     ).intersection(
                                         self._processed_objective.keys())
         for mon in semiknowns_to_process:
-            coeff = self._processed_objective[mon]
-            for (subs_coeff, subs) in self.semiknown_moments[mon]:
-                self._processed_objective[subs] = \
-                    self._processed_objective.get(subs, 0) + coeff * subs_coeff
-                del self._processed_objective[mon]
+            coeff = self._processed_objective.pop(mon)
+            subs_coeff, subs = self.semiknown_moments[mon]
+            self._processed_objective[subs] = \
+                self._processed_objective.get(subs, 0) + coeff * subs_coeff
         collect()
 
     def _update_bounds(self, typ: str) -> None:
-- 
2.43.0


From 861985d90c9f02efd67cc586717813b560af4fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 30/59] fix: impose normalization when including all outcomes
 in the SDPs of networks

---
 inflation/sdp/InflationSDP.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index fd4b024..4cbe297 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -406,10 +406,11 @@ class InflationSDP:
                                  for mon in self.moments}
         self.names_to_symbols[self.constant_term_name] = sp.S.One
 
-        # In non-network scenarios we do not use Collins-Gisin notation for
-        # some variables, so there exist normalization constraints between them
+        # When not using Collins-Gisin notation for some variables (e.g., those
+        # with children in non-network scenarios), there exist normalization
+        # constraints between them
         self.minimal_equalities = []
-        if not self.network_scenario or self.supports_problem:
+        if self.has_children.any():
             self.column_level_equalities = self._discover_normalization_eqns()
             self.idx_level_equalities    = construct_normalization_eqs(
                                                 self.column_level_equalities,
-- 
2.43.0


From db3bc10faad2eebbd0c9cabfc251a79f02c1313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 31/59] fix: normalization equalities of repeated operators in
 all-outcomes SDPs

---
 inflation/sdp/InflationSDP.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 4cbe297..07d1815 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1947,12 +1947,14 @@ class InflationSDP:
                         eqs += [(lhs, list(rhs))]
                 for eq in eqs:
                     try:
-                        eq_idxs = [self.genmon_1d_to_index[tuple(eq[0])]]
+                        # Deleting an operator can bring equal ones together
+                        lhs = self._to_canonical_memoized_1d(eq[0])
+                        eq_idxs = [self.genmon_1d_to_index[tuple(lhs)]]
                         eq_idxs.append([self.genmon_1d_to_index[tuple(m)]
                                         for m in eq[1]])
                         column_level_equalities += [tuple(eq_idxs)]
                     except KeyError:
-                        break
+                        continue
         return column_level_equalities
 
     def _discover_columns_symmetries(self) -> np.ndarray:
-- 
2.43.0


From 5881c1f4c75e70b6789e2a93698295a16b29c594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 32/59] fix: normalization equalities of measurements with a
 single outcome in SDPs

---
 inflation/sdp/InflationSDP.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 07d1815..e4342af 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -10,7 +10,6 @@ from gc import collect
 from itertools import chain, count, product, repeat, combinations
 from operator import neg as op_neg
 from numbers import Real
-from operator import itemgetter
 from typing import List, Dict, Tuple, Union, Any
 from warnings import warn
 
@@ -421,11 +420,13 @@ class InflationSDP:
                       len(self.idx_level_equalities))
             for (norm_idx, summation_idxs) in self.idx_level_equalities:
                 eq_dict = {self.compmoment_from_idx[norm_idx]: 1}
-                eq_dict.update(zip(
-                    itemgetter(*summation_idxs)(self.compmoment_from_idx),
-                    repeat(-1)
-                ))
-                self.minimal_equalities.append(eq_dict)
+                for idx in summation_idxs:
+                    mon = self.compmoment_from_idx[idx]
+                    eq_dict[mon] = eq_dict.get(mon, 0) - 1
+                # With a single outcome, both sides can be the same moment
+                eq_dict = {mon: c for mon, c in eq_dict.items() if c != 0}
+                if eq_dict:
+                    self.minimal_equalities.append(eq_dict)
 
         self.minimal_inequalities = []
         self.moment_upperbounds  = dict()
-- 
2.43.0


From 42497ad671b5854bbe35da7dc0d9f88d12108b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 33/59] fix: supports problems use only whether the values are
 zero

---
 inflation/lp/InflationLP.py   | 3 +++
 inflation/sdp/InflationSDP.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index da958d7..17ad9c2 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -425,6 +425,9 @@ class InflationLP(object):
             except TypeError:
                 pass
             mon = self._sanitise_monomial(mon)
+            if self.supports_problem:
+                # Only whether the moment is possible matters
+                value = 0. if np.isclose(value, 0) else 1.
             self.known_moments[mon] = value
         if not only_specified_values:
             atomic_knowns = {mon.factors[0]: val
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index e4342af..fd1b38a 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -722,6 +722,9 @@ class InflationSDP:
             except TypeError:
                 pass
             moment = self._sanitise_moment(moment)
+            if self.supports_problem:
+                # Only whether the moment is possible matters
+                value = 0. if np.isclose(value, 0) else 1.
             self.known_moments[moment] = value
             if (self.verbose > 0) and (not moment.is_all_commuting):
                 non_all_commuting_moments.add(moment)
-- 
2.43.0


From ba76e1972d2b8fb6487e8ba970dea6f38baea635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 34/59] fix: bounds that impose a support are dropped or
 changed along with the support

---
 inflation/lp/InflationLP.py   | 19 +++++++++++++++++--
 inflation/sdp/InflationSDP.py | 18 ++++++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 17ad9c2..1935e56 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -192,6 +192,7 @@ class InflationLP(object):
         self.monomial_from_name = dict()
         self.monomial_from_symbol = dict()
         self.One  = self.Monomial(self.identity_operator, idx=1)
+        self._possible_moments = []
         self._generate_lp()
 
     ###########################################################################
@@ -411,6 +412,12 @@ class InflationLP(object):
 
         self._reset_solution()
 
+        if self.supports_problem:
+            # Moments previously declared possible are also known
+            possible_moments = self._possible_moments
+            self._reset_possible_moments()
+            self.known_moments.update({mon: 1. for mon in possible_moments})
+
         self.use_lpi_constraints = use_lpi_constraints
 
         if (len(self.objective) > 1) and self.use_lpi_constraints:
@@ -1702,6 +1709,7 @@ class InflationLP(object):
             for mon in nonzero_known_monomials:
                 self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
+            self._possible_moments = nonzero_known_monomials
             self.semiknown_moments = dict()
         num_nontrivial_known = len(self.known_moments)
         if self.verbose > 1 and num_nontrivial_known > 1:
@@ -1723,7 +1731,7 @@ class InflationLP(object):
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
-        self.moment_lowerbounds = dict()
+        self.moment_lowerbounds = {mon: 1. for mon in self._possible_moments}
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
@@ -1739,11 +1747,18 @@ class InflationLP(object):
     def _reset_values(self) -> None:
         """Reset the known values."""
         self._reset_solution()
+        self._reset_possible_moments()
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         self.known_moments[self.One] = 1.
         collect()
 
+    def _reset_possible_moments(self) -> None:
+        """Reset the moments that a support requires to be positive."""
+        for mon in self._possible_moments:
+            self.moment_lowerbounds.pop(mon, None)
+        self._possible_moments = []
+
     def _reset_extra_constraints(self) -> None:
         """Reset the additional constraints specified by the user."""
         self._reset_solution()
@@ -2065,7 +2080,7 @@ class InflationLP(object):
                 assert np.isclose(old_bound, lowerbound), \
                     (f"Contradiction: Cannot set the same monomial {mon} to " +
                      "have different lower bounds.")
-        self.moment_lowerbounds = sanitized_lowerbounds
+        self.moment_lowerbounds.update(sanitized_lowerbounds)
 
     def mon_to_boolvec(self, mon: np.ndarray) -> np.ndarray:
         """Convert a monomial to a boolean vector.
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index fd1b38a..25f76d8 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -431,6 +431,7 @@ class InflationSDP:
         self.minimal_inequalities = []
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
+        self._possible_moments   = []
 
         self._reset_extra_constraints()
         self.set_objective(None)
@@ -704,6 +705,12 @@ class InflationSDP:
 
         self._reset_solution()
 
+        if self.supports_problem:
+            # Moments previously declared possible are also known
+            possible_moments = self._possible_moments
+            self._reset_possible_moments()
+            self.known_moments.update({mon: 1. for mon in possible_moments})
+
         self.use_lpi_constraints = use_lpi_constraints
 
         if (len(self.objective) > 1) and self.use_lpi_constraints:
@@ -2067,6 +2074,7 @@ class InflationSDP:
             for mon in nonzero_known_monomials:
                 self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
+            self._possible_moments = nonzero_known_monomials
             self.semiknown_moments = dict()
 
         self._update_bounds("lo")
@@ -2091,6 +2099,7 @@ class InflationSDP:
         """Reset the list of lower bounds."""
         self._reset_solution()
         self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
+        self.moment_lowerbounds.update({m: 1. for m in self._possible_moments})
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
@@ -2108,6 +2117,7 @@ class InflationSDP:
     def _reset_values(self) -> None:
         """Reset the known values."""
         self._reset_solution()
+        self._reset_possible_moments()
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         if self.momentmatrix_has_a_zero:
@@ -2115,6 +2125,14 @@ class InflationSDP:
         self.known_moments[self.One] = 1.
         collect()
 
+    def _reset_possible_moments(self) -> None:
+        """Reset the moments that a support requires to be positive."""
+        for mon in self._possible_moments:
+            self.moment_lowerbounds.pop(mon, None)
+            if mon in self.hermitian_moments:
+                self.moment_lowerbounds[mon] = 0.
+        self._possible_moments = []
+
     def _reset_extra_constraints(self) -> None:
         """Reset the additional constraints specified by the user."""
         self._reset_solution()
-- 
2.43.0


From ec4e27ff684cd755121e9fe7f1ce2785fa37a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 35/59] fix: products computed from values are computed again
 when the values change

---
 inflation/lp/InflationLP.py   | 8 ++++++++
 inflation/sdp/InflationSDP.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 1935e56..654a4df 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -417,6 +417,12 @@ class InflationLP(object):
             possible_moments = self._possible_moments
             self._reset_possible_moments()
             self.known_moments.update({mon: 1. for mon in possible_moments})
+        if not only_specified_values:
+            # Values computed from others are computed again
+            for mon in self._computed_moments:
+                self.known_moments.pop(mon, None)
+            self._computed_moments = set()
+            self.semiknown_moments = dict()
 
         self.use_lpi_constraints = use_lpi_constraints
 
@@ -469,6 +475,7 @@ class InflationLP(object):
                     self.use_lpi_constraints)
                 if known_status == "Known":
                     self.known_moments[mon] = value
+                    self._computed_moments.add(mon)
                 elif known_status == "Semi":
                     if self.use_lpi_constraints:
                         unknown_mon = \
@@ -1750,6 +1757,7 @@ class InflationLP(object):
         self._reset_possible_moments()
         self.known_moments     = dict()
         self.semiknown_moments = dict()
+        self._computed_moments = set()
         self.known_moments[self.One] = 1.
         collect()
 
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 25f76d8..f2db05a 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -710,6 +710,12 @@ class InflationSDP:
             possible_moments = self._possible_moments
             self._reset_possible_moments()
             self.known_moments.update({mon: 1. for mon in possible_moments})
+        if not only_specified_values:
+            # Values computed from others are computed again
+            for mon in self._computed_moments:
+                self.known_moments.pop(mon, None)
+            self._computed_moments = set()
+            self.semiknown_moments = dict()
 
         self.use_lpi_constraints = use_lpi_constraints
 
@@ -772,6 +778,7 @@ class InflationSDP:
                     self.use_lpi_constraints)
                 if known_status == "Known":
                     self.known_moments[moment] = value
+                    self._computed_moments.add(moment)
                 elif known_status == "Semi":
                     if self.use_lpi_constraints:
                         unknown_mon = \
@@ -2120,6 +2127,7 @@ class InflationSDP:
         self._reset_possible_moments()
         self.known_moments     = dict()
         self.semiknown_moments = dict()
+        self._computed_moments = set()
         if self.momentmatrix_has_a_zero:
             self.known_moments[self.Zero] = 0.
         self.known_moments[self.One] = 1.
-- 
2.43.0


From a49d7cc7f91a15ba7109244a55d37674f7e11d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:43 +0000
Subject: [PATCH 36/59] fix: setting extra constraints discards the solution of
 the previous program

---
 inflation/lp/InflationLP.py   | 2 ++
 inflation/sdp/InflationSDP.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 654a4df..1e2eea4 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -535,6 +535,7 @@ class InflationLP(object):
             The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_equalities = []  # Reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -552,6 +553,7 @@ class InflationLP(object):
              constraints. The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # Reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f2db05a..6cf691d 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -451,6 +451,7 @@ class InflationSDP:
             (keys can be instances of `CompoundMonomial`, Symbols, strings, or
             integers), or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_equalities = []  # reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -468,6 +469,7 @@ class InflationSDP:
             dictionaries (keys can be instances of `CompoundMonomial`, Symbols,
             strings, or integers) or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
-- 
2.43.0


From e1b7cccce237850b5648d819d72b98dc5c219afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:43 +0000
Subject: [PATCH 37/59] fix: set_bounds(None) removes the bounds also in
 InflationSDP

---
 inflation/sdp/InflationSDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 6cf691d..29d62ac 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -514,7 +514,7 @@ class InflationSDP:
         assert bound_type in ["up", "lo"], \
             "The 'bound_type' argument should be either 'up' or 'lo'"
         if bounds is None:
-            return
+            bounds = dict()
         # Sanitize list of bounds
         sanitized_bounds = dict()
         for mon, bound in bounds.items():
-- 
2.43.0


From 14e513ad74758da6ad5baa64e01193dddc245d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:43 +0000
Subject: [PATCH 38/59] fix: size of the mask of the constant term

---
 inflation/sdp/InflationSDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 29d62ac..b6fab2a 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2309,7 +2309,7 @@ class InflationSDP:
                 ub[self.constant_term_name] = bnd
             solverargs["inequalities"].append(ub)
         solverargs["mask_matrices"][self.constant_term_name] = coo_array(
-            (self.n_columns, self.n_columns))
+            self.momentmatrix.shape)
         return solverargs
 
     def _reset_solution(self) -> None:
-- 
2.43.0


From 056876f90fae3140560164cdc8121d930fb8552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 39/59] fix: bounds of moments that are no longer known apply
 again

---
 inflation/sdp/InflationSDP.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index b6fab2a..d17c5e6 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -431,6 +431,7 @@ class InflationSDP:
         self.minimal_inequalities = []
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
+        self._redundant_bounds   = {"up": dict(), "lo": dict()}
         self._possible_moments   = []
 
         self._reset_extra_constraints()
@@ -1360,6 +1361,8 @@ class InflationSDP:
             extension = "dat-s"
             filename += ".dat-s"
 
+        self._update_bounds("lo")
+        self._update_bounds("up")
         # Write file according to the extension
         if self.verbose > 0:
             print("Writing the SDP program to", filename)
@@ -2107,6 +2110,7 @@ class InflationSDP:
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
+        self._redundant_bounds["lo"] = dict()
         self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
         self.moment_lowerbounds.update({m: 1. for m in self._possible_moments})
         self._update_bounds("lo")
@@ -2114,6 +2118,7 @@ class InflationSDP:
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
         self._reset_solution()
+        self._redundant_bounds["up"] = dict()
         self.moment_upperbounds = dict()
 
     def _reset_objective(self) -> None:
@@ -2191,17 +2196,20 @@ class InflationSDP:
         else:
             raise Exception(f"The bound type was {typ}, but it must be " +
                             "either \"up\" or \"lo\".")
+        # Bounds on known moments are set aside, because the moments may later
+        # be given a different value, or none
+        redundant = self._redundant_bounds[typ]
+        for mon, b in redundant.items():
+            bounds.setdefault(mon, b)
+        redundant.clear()
         for mon, value in self.known_moments.items():
-            if isinstance(value, Real):
-                try:
-                    b = bounds[mon]
-                    condition = (b >= value) if typ == "up" else (b <= value)
-                    assert condition, (f"Value {value} assigned for " +
-                                       f"monomial {mon} contradicts the " +
-                                       f"assigned {dir}er bound of {b}.")
-                    del bounds[mon]
-                except KeyError:
-                    pass
+            if isinstance(value, Real) and mon in bounds:
+                b = bounds[mon]
+                condition = (b >= value) if typ == "up" else (b <= value)
+                assert condition, (f"Value {value} assigned for " +
+                                   f"monomial {mon} contradicts the " +
+                                   f"assigned {dir}er bound of {b}.")
+                redundant[mon] = bounds.pop(mon)
 
     ###########################################################################
     # OTHER ROUTINES                                                          #
@@ -2277,6 +2285,8 @@ class InflationSDP:
             ("Error: Tried to assign known values outside of moment matrix: " +
              str(set(self.known_moments.keys()
                      ).difference(self.moments)))
+        self._update_bounds("lo")
+        self._update_bounds("up")
         if len(self.maskmatrices) == 0:
             self._construct_mask_matrices()
         solverargs = {"mask_matrices": {mon.name: mask_matrix
-- 
2.43.0


From a83e3a9e3edc382196134e361e9340a1deb16dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:11 +0000
Subject: [PATCH 40/59] fix: calls that are rejected leave the program as it
 was

---
 inflation/lp/InflationLP.py   | 20 ++++++++++++++++++--
 inflation/sdp/InflationSDP.py | 25 +++++++++++++++++++++----
 inflation/utils.py            | 22 ++++++++++++++++++++++
 3 files changed, 61 insertions(+), 6 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 1e2eea4..0e6fb71 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -26,13 +26,22 @@ from .numbafied import (nb_outer_bitwise_or,
 from .writer_utils import write_to_lp, write_to_mps
 from ..sdp.fast_npa import nb_is_knowable as is_knowable
 from ..sdp.quantum_tools import flatten_symbolic_powers
-from ..utils import clean_coefficients, eprint, partsextractor, \
-    expand_sparse_vec
+from ..utils import all_or_nothing, clean_coefficients, eprint, \
+    expand_sparse_vec, partsextractor
 
 
 class InflationLP(object):
     constant_term_name = "constant_term"
 
+    # Attributes that are modified by the user after the program is generated
+    _settings = ("known_moments", "semiknown_moments", "_computed_moments",
+                 "_possible_moments", "use_lpi_constraints",
+                 "moment_lowerbounds", "moment_upperbounds",
+                 "extra_equalities", "extra_inequalities",
+                 "objective", "maximize",
+                 "status", "success", "primal_objective", "objective_value",
+                 "solution_object")
+
     def __init__(self,
                  inflationproblem: InflationProblem,
                  nonfanout: bool = True,
@@ -203,6 +212,7 @@ class InflationLP(object):
         """Returns the monomials as strings."""
         return [mon.name for mon in self.monomials]
 
+    @all_or_nothing
     def set_bounds(self,
                    bounds: Union[dict, None],
                    bound_type: str = "up") -> None:
@@ -329,6 +339,7 @@ class InflationLP(object):
                         use_lpi_constraints=use_lpi_constraints,
                         only_specified_values=shared_randomness)
 
+    @all_or_nothing
     def set_objective(self,
                       objective: Union[sp.core.expr.Expr, dict, None],
                       direction: str = "max") -> None:
@@ -374,6 +385,7 @@ class InflationLP(object):
                  "least one monomial that does not appear in the original " +
                  f"generating set:\n\t{surprising_objective_terms}")
 
+    @all_or_nothing
     def update_values(self,
                       values: Union[Dict[Union[CompoundMoment,
                       InternalAtomicMonomial,
@@ -497,6 +509,7 @@ class InflationLP(object):
             del atomic_knowns, surprising_semiknowns
         self._cleanup_after_set_values()
 
+    @all_or_nothing
     def set_values(self, 
                    values: Union[Dict[Union[CompoundMoment,
                    InternalAtomicMonomial,
@@ -524,6 +537,7 @@ class InflationLP(object):
             self.update_values(values, **kwargs)
             return
 
+    @all_or_nothing
     def set_extra_equalities(self,
                              extra_equalities: Union[list, None]) -> None:
         """Set extra equality constraints for the LP.
@@ -542,6 +556,7 @@ class InflationLP(object):
         self.extra_equalities = [self._sanitise_dict(eq)
                                  for eq in extra_equalities]
 
+    @all_or_nothing
     def set_extra_inequalities(self,
                                extra_inequalities: Union[list, None]) -> None:
         """Set extra inequality constraints for the LP.
@@ -895,6 +910,7 @@ class InflationLP(object):
     ###########################################################################
     # OTHER ROUTINES EXPOSED TO THE USER                                      #
     ##########################################################################
+    @all_or_nothing
     def reset(self, which: Union[str, List[str]] = "all") -> None:
         """Reset the various user-specifiable objects in the inflation LP.
 
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index d17c5e6..10f8884 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -35,7 +35,9 @@ from .writer_utils import (write_to_csv,
                            write_to_mat,
                            write_to_sdpa)
 from ..lp.numbafied import nb_outer_bitwise_or
-from ..utils import clean_coefficients, partsextractor
+from ..utils import (all_or_nothing,
+                     clean_coefficients,
+                     partsextractor)
 
 
 class InflationSDP:
@@ -43,6 +45,15 @@ class InflationSDP:
     """
     constant_term_name = "constant_term"
 
+    # Attributes that are modified by the user after the program is generated
+    _settings = ("known_moments", "semiknown_moments", "_computed_moments",
+                 "_possible_moments", "use_lpi_constraints",
+                 "moment_lowerbounds", "moment_upperbounds", "_redundant_bounds",
+                 "extra_equalities", "extra_inequalities",
+                 "objective", "_processed_objective", "maximize",
+                 "status", "success", "primal_objective", "objective_value",
+                 "solution_object")
+
     def __init__(self,
                  inflationproblem: InflationProblem,
                  supports_problem: bool = False,
@@ -441,6 +452,7 @@ class InflationSDP:
         self.maskmatrices = dict()
         self._relaxation_has_been_generated = True
 
+    @all_or_nothing
     def set_extra_equalities(self,
                              extra_equalities: Union[list, None]) -> None:
         """Set extra equality constraints for the SDP.
@@ -459,6 +471,7 @@ class InflationSDP:
         self.extra_equalities = [self._sanitise_dict(eq)
                                  for eq in extra_equalities]
 
+    @all_or_nothing
     def set_extra_inequalities(self,
                                extra_inequalities: Union[list, None]) -> None:
         """Set extra inequality constraints for the SDP.
@@ -487,6 +500,7 @@ class InflationSDP:
         """All inequalities (minimal and extra) as one list of dictionaries."""
         return self.minimal_inequalities + self.extra_inequalities
 
+    @all_or_nothing
     def set_bounds(self,
                    bounds: Union[dict, None],
                    bound_type: str = "up") -> None:
@@ -620,6 +634,7 @@ class InflationSDP:
                         use_lpi_constraints=use_lpi_constraints,
                         only_specified_values=shared_randomness)
 
+    @all_or_nothing
     def set_objective(self,
                       objective: Union[sp.core.expr.Expr,
                                        dict,
@@ -669,6 +684,7 @@ class InflationSDP:
                  f"moment matrix:\n\t{surprising_objective_terms}")
             self._update_objective()
 
+    @all_or_nothing
     def update_values(self,
                    values: Union[Dict[Union[CompoundMomentSDP,
                                             InternalAtomicMonomialSDP,
@@ -799,6 +815,7 @@ class InflationSDP:
             del atomic_knowns, surprising_semiknowns
         self._cleanup_after_set_values()
 
+    @all_or_nothing
     def set_values(self, values, **kwargs):
         r"""Exactly like update_values, except it resets all known values to zero
         as an intermediate step
@@ -1310,6 +1327,7 @@ class InflationSDP:
                       for lexmon in self.generating_monomials_1d ]
         return output
 
+    @all_or_nothing
     def reset(self, which: Union[str, List[str]] = "all") -> None:
         """Reset the various user-specifiable objects in the inflation SDP.
 
@@ -2198,10 +2216,9 @@ class InflationSDP:
                             "either \"up\" or \"lo\".")
         # Bounds on known moments are set aside, because the moments may later
         # be given a different value, or none
-        redundant = self._redundant_bounds[typ]
-        for mon, b in redundant.items():
+        for mon, b in self._redundant_bounds[typ].items():
             bounds.setdefault(mon, b)
-        redundant.clear()
+        self._redundant_bounds[typ] = redundant = dict()
         for mon, value in self.known_moments.items():
             if isinstance(value, Real) and mon in bounds:
                 b = bounds[mon]
diff --git a/inflation/utils.py b/inflation/utils.py
index 570c2cc..9ad4853 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -9,6 +9,8 @@ import sympy
 import numpy as np
 import scipy.sparse as sps
 
+from copy import copy
+from functools import wraps
 from itertools import chain
 from typing import Any, Dict, Iterable, List, Tuple, Union
 from sys import stderr
@@ -248,3 +250,23 @@ def make_numerical(symbolic_expressions: Dict[Any, sympy.core.expr.Expr],
         except AttributeError:
             numeric_values[k] = float(v)
     return numeric_values
+
+
+def all_or_nothing(method):
+    """Decorator for the methods that change the settings of a program. If the
+    method raises an exception, the settings are those from before the call.
+    The names of the attributes are taken from the class' ``_settings``.
+    """
+    @wraps(method)
+    def wrapped(self, *args, **kwargs):
+        previous = {attribute: copy(value)
+                    for attribute, value in vars(self).items()
+                    if attribute in self._settings}
+        try:
+            return method(self, *args, **kwargs)
+        except Exception:
+            for attribute in self._settings:
+                vars(self).pop(attribute, None)
+            vars(self).update(previous)
+            raise
+    return wrapped
-- 
2.43.0


From c14286515d38da5d62357800deb4908839201f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 41/59] fix: constraints exported from an LP are those in force

---
 inflation/lp/InflationLP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 0e6fb71..2cb1b6e 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1808,12 +1808,12 @@ class InflationLP(object):
     # Preparation for passing to external interfaces                          #
     ###########################################################################
 
-    @cached_property
+    @property
     def moment_equalities_by_name(self):
         """List of dictionaries of moment equalities by name."""
         return self._coo_mat_to_dict(self.sparse_equalities, string_keys=True)
 
-    @cached_property
+    @property
     def moment_inequalities_by_name(self):
         """List of dictionaries of moment inequalities by name."""
         return self._coo_mat_to_dict(self.sparse_inequalities, 
-- 
2.43.0


From 368b691270e7226f74ae4fc69cc9432584f58b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:52 +0000
Subject: [PATCH 42/59] fix: the objective of an SDP no longer contains values
 that have been reset

---
 inflation/sdp/InflationSDP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 10f8884..f64cf36 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2156,6 +2156,7 @@ class InflationSDP:
         if self.momentmatrix_has_a_zero:
             self.known_moments[self.Zero] = 0.
         self.known_moments[self.One] = 1.
+        self._update_objective()
         collect()
 
     def _reset_possible_moments(self) -> None:
-- 
2.43.0


From aef071d03932189d716cac726f03f9d6e011dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 43/59] fix: coefficients in exported MPS files were rounded to
 four decimals

---
 inflation/lp/writer_utils.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 277fa04..5d2c5dc 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -104,17 +104,16 @@ def write_to_mps(args: dict, filename: str) -> None:
     f.write(f"COLUMNS\n")
     for x in variables:
         if x in set(objective).difference(known_vars):
-            arr = [x, 'obj', objective[x]]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            arr = [x, 'obj', float(objective[x])]
+            f.write("    {:<9} {:<9} {!r}\n".format(*arr))
         for i, eq in enumerate(internal_equalities):
             if x in set(eq).difference(known_vars):
-                arr = [x, f"c{i}", eq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                arr = [x, f"c{i}", float(eq[x])]
+                f.write("    {:<9} {:<9} {!r}\n".format(*arr))
         for i, ineq in enumerate(inequalities):
             if x in set(ineq).difference(known_vars):
-                arr = [x, f"c{nof_equalities + i}",
-                       ineq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                arr = [x, f"c{nof_equalities + i}", float(ineq[x])]
+                f.write("    {:<9} {:<9} {!r}\n".format(*arr))
 
     f.write(f"RHS\n")
     # Specify objective offset
@@ -122,8 +121,8 @@ def write_to_mps(args: dict, filename: str) -> None:
     for x in set(objective).intersection(known_vars):
         rhs -= objective[x] * known_vars[x]
     if rhs != 0:
-        arr = ['rhs', 'obj', rhs]
-        f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+        arr = ['rhs', 'obj', float(rhs)]
+        f.write("    {:<9} {:<9} {!r}\n".format(*arr))
 
     # Specify non-zero RHS values of the constraints
     for i, c in enumerate(constraints):
@@ -131,19 +130,19 @@ def write_to_mps(args: dict, filename: str) -> None:
         for x in set(c).intersection(known_vars):
             rhs -= c[x] * known_vars[x]
         if rhs != 0:
-            arr = ['rhs', f"c{i}", rhs]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            arr = ['rhs', f"c{i}", float(rhs)]
+            f.write("    {:<9} {:<9} {!r}\n".format(*arr))
 
     f.write(f"RANGES\n")
 
     # Specify variable bound values
     f.write(f"BOUNDS\n")
     for x in lower_bounds:
-        arr = ['bound', x, lower_bounds[x]]
-        f.write(" LO {:10}{:10}{:<10.4f}\n".format(*arr))
+        arr = ['bound', x, float(lower_bounds[x])]
+        f.write(" LO {:<9} {:<9} {!r}\n".format(*arr))
     for x in upper_bounds:
-        arr = ['bound', x, upper_bounds[x]]
-        f.write(" UP {:10}{:10}{:<10.4f}\n".format(*arr))
+        arr = ['bound', x, float(upper_bounds[x])]
+        f.write(" UP {:<9} {:<9} {!r}\n".format(*arr))
     f.write(f"ENDATA")
     f.close()
 
-- 
2.43.0


From b800f28ac020b93ee64281134be7726db5b76128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 44/59] fix: bounds of the variables in exported LP and MPS
 files

---
 inflation/lp/InflationLP.py  |  1 +
 inflation/lp/writer_utils.py | 54 ++++++++++++++++++++++++------------
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 2cb1b6e..3064c80 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -963,6 +963,7 @@ class InflationLP(object):
 
         # Write file according to the extension
         args = self._prepare_solver_arguments(separate_bounds=True)
+        args["default_non_negative"] = self.default_non_negative
         if self.verbose > 0:
             print("Writing the LP program to", filename)
         if extension == "lp":
diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 5d2c5dc..3960f6a 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -25,8 +25,7 @@ def write_to_lp(args: dict, filename: str) -> None:
     known_vars = processed_args["known_vars"]
     internal_equalities = processed_args["equalities"]
     inequalities = processed_args["inequalities"]
-    lower_bounds = processed_args["lower_bounds"]
-    upper_bounds = processed_args["upper_bounds"]
+    bounds = processed_args["bounds"]
     variables = processed_args["variables"]
 
 
@@ -50,10 +49,13 @@ def write_to_lp(args: dict, filename: str) -> None:
             i += 1
 
     f.write("bounds\n")
-    for x in lower_bounds:
-        f.write(f"{lower_bounds[x]} <= {x}")
-    for x in upper_bounds:
-        f.write(f"{x} <= {upper_bounds[x]}")
+    for x, (lb, ub) in bounds.items():
+        if lb is None and ub is None:
+            f.write(f"{x} free\n")
+        elif ub is None:
+            f.write(f"{x} >= {lb}\n")
+        else:
+            f.write(f"{'-inf' if lb is None else lb} <= {x} <= {ub}\n")
     f.write("end")
     f.close()
 
@@ -74,8 +76,7 @@ def write_to_mps(args: dict, filename: str) -> None:
     known_vars = processed_args["known_vars"]
     internal_equalities = processed_args["equalities"]
     inequalities = processed_args["inequalities"]
-    lower_bounds = processed_args["lower_bounds"]
-    upper_bounds = processed_args["upper_bounds"]
+    bounds = processed_args["bounds"]
     variables = processed_args["variables"]
 
     # Exclude constraints in which variables are all known values
@@ -137,12 +138,18 @@ def write_to_mps(args: dict, filename: str) -> None:
 
     # Specify variable bound values
     f.write(f"BOUNDS\n")
-    for x in lower_bounds:
-        arr = ['bound', x, float(lower_bounds[x])]
-        f.write(" LO {:<9} {:<9} {!r}\n".format(*arr))
-    for x in upper_bounds:
-        arr = ['bound', x, float(upper_bounds[x])]
-        f.write(" UP {:<9} {:<9} {!r}\n".format(*arr))
+    for x, (lb, ub) in bounds.items():
+        if lb is None and ub is None:
+            f.write(f" FR {'bound':<9} {x}\n")
+            continue
+        if lb is None:
+            f.write(f" MI {'bound':<9} {x}\n")
+        else:
+            arr = ['bound', x, float(lb)]
+            f.write(" LO {:<9} {:<9} {!r}\n".format(*arr))
+        if ub is not None:
+            arr = ['bound', x, float(ub)]
+            f.write(" UP {:<9} {:<9} {!r}\n".format(*arr))
     f.write(f"ENDATA")
     f.close()
 
@@ -178,7 +185,7 @@ def process_arguments(args: dict) -> dict:
     -------
     dict
         Processed objective, known_vars, internal_equalities,
-        inequalities, lower_bounds, upper_bounds, variables
+        inequalities, bounds, variables
     """
     old_variables = args["variables"]
     old_equalities = deepcopy(args["equalities"])
@@ -199,14 +206,27 @@ def process_arguments(args: dict) -> dict:
     new_upper_bounds = {var_idx[x]: c for x, c in old_upper_bounds.items()}
     new_objective = {var_idx[x]: c for x, c in old_objective.items()}
 
+    # The bounds of the variables in the file, where not specifying any means
+    # that a variable is non-negative
+    non_negative = args.get("default_non_negative", True)
+    used = set().union(new_objective, *new_equalities, *new_inequalities)
+    new_bounds = dict()
+    for x in new_variables:
+        if x in new_known_vars or x not in used:
+            continue
+        lb, ub = new_lower_bounds.get(x, None), new_upper_bounds.get(x, None)
+        if non_negative:
+            lb = 0. if lb is None else max(lb, 0.)
+        if lb != 0 or ub is not None:
+            new_bounds[x] = (lb, ub)
+
     return {
         "objective": new_objective,
         "variables": new_variables,
         "equalities": new_equalities,
         "inequalities": new_inequalities,
         "known_vars": new_known_vars,
-        "lower_bounds": new_lower_bounds,
-        "upper_bounds": new_upper_bounds}
+        "bounds": new_bounds}
 
 
 def format_constraint_lp(known_vars: dict,
-- 
2.43.0


From cd6ff32da74572c5a495c21c4597049e3e9acfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 45/59] fix: constant term of the objective in exported LP
 files

---
 inflation/lp/writer_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 3960f6a..c46714e 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -48,7 +48,7 @@ def write_to_lp(args: dict, filename: str) -> None:
             f.write(f"c{i}: {cons}\n")
             i += 1
 
-    f.write("bounds\n")
+    f.write("bounds\none = 1\n")
     for x, (lb, ub) in bounds.items():
         if lb is None and ub is None:
             f.write(f"{x} free\n")
@@ -259,12 +259,13 @@ def format_constraint_lp(known_vars: dict,
     cons = ""
     for x in set(constraint).difference(known_vars):
         cons += f"{constraint[x]} {x} + "
+    if cons_type == 'obj':
+        # Readers disagree about constants, so it multiplies a fixed variable
+        return cons + f"{c} one"
     if cons == "":
         return cons
 
-    if cons_type == 'obj':
-        cons += str(c)
-    elif cons_type == 'eq':
+    if cons_type == 'eq':
         cons = cons[:-3] + ' = ' + str(-c)
     elif cons_type == 'ineq':
         cons = cons[:-3] + ' >= ' + str(-c)
-- 
2.43.0


From 5987cbf00989e9088a68aca032a7921ef20c001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 46/59] fix: exported LP and MPS files of programs whose values
 violate a constraint

---
 inflation/lp/writer_utils.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index c46714e..48510d7 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -7,6 +7,7 @@ problem to file.
 
 import mosek
 from copy import deepcopy
+from math import isclose
 
 
 def write_to_lp(args: dict, filename: str) -> None:
@@ -79,11 +80,16 @@ def write_to_mps(args: dict, filename: str) -> None:
     bounds = processed_args["bounds"]
     variables = processed_args["variables"]
 
-    # Exclude constraints in which variables are all known values
+    # Exclude constraints in which variables are all known values, except if
+    # the values do not satisfy them
+    def is_needed(constraint, is_equality):
+        if set(constraint).difference(known_vars):
+            return True
+        c = sum(constraint[x] * known_vars[x] for x in constraint)
+        return not (isclose(c, 0, abs_tol=1e-9) or (not is_equality and c > 0))
     internal_equalities = [eq for eq in internal_equalities
-                           if set(eq).difference(known_vars)]
-    inequalities = [ineq for ineq in inequalities
-                    if set(ineq).difference(known_vars)]
+                           if is_needed(eq, True)]
+    inequalities = [ineq for ineq in inequalities if is_needed(ineq, False)]
     constraints = internal_equalities + inequalities
     nof_equalities = len(internal_equalities)
     nof_inequalities = len(inequalities)
@@ -206,6 +212,13 @@ def process_arguments(args: dict) -> dict:
     new_upper_bounds = {var_idx[x]: c for x, c in old_upper_bounds.items()}
     new_objective = {var_idx[x]: c for x, c in old_objective.items()}
 
+    # Bounds on known variables are constraints that hold or not
+    new_known_vars["one"] = 1.
+    for x in set(new_lower_bounds).intersection(new_known_vars):
+        new_inequalities.append({x: 1, "one": -new_lower_bounds[x]})
+    for x in set(new_upper_bounds).intersection(new_known_vars):
+        new_inequalities.append({x: -1, "one": new_upper_bounds[x]})
+
     # The bounds of the variables in the file, where not specifying any means
     # that a variable is non-negative
     non_negative = args.get("default_non_negative", True)
@@ -263,7 +276,11 @@ def format_constraint_lp(known_vars: dict,
         # Readers disagree about constants, so it multiplies a fixed variable
         return cons + f"{c} one"
     if cons == "":
-        return cons
+        # All variables are known, so the constraint is needed only if the
+        # values do not satisfy it
+        if isclose(c, 0, abs_tol=1e-9) or (cons_type == 'ineq' and c > 0):
+            return cons
+        cons = "0 one + "
 
     if cons_type == 'eq':
         cons = cons[:-3] + ' = ' + str(-c)
-- 
2.43.0


From d9fef17f952e2c981bac452817bdba6fc620ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:41 +0000
Subject: [PATCH 47/59] fix: SDPA export of known, proportional and
 unnormalized moments outside of the moment matrix, and of several
 inequalities

---
 inflation/sdp/writer_utils.py | 202 ++++++++++++----------------------
 1 file changed, 72 insertions(+), 130 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index c5d7ea7..f0d9dd7 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -266,148 +266,90 @@ def write_to_sdpa(problem, filename):
     For more information about the .dat-s format, see the specifications at:
     http://euler.nmt.edu/~brian/sdplib/FORMAT
     """
-    # Compute actual number of variables: all in the moment matrix, minus those
-    # with known values, minus those that participate in LPI constraints, plus
-    # those where the unknown part of the LPI constraint is not in the original
-    # moment matrix
-    potential_nvars = problem.momentmatrix.max() - 1
-    if len(problem.known_moments) == 1:
-        known_vars = 0
-    else:
-        known_vars = (len(problem.known_moments)
-                      - problem.momentmatrix_has_a_zero
-                      - problem.momentmatrix_has_a_one)
-    semiknown_vars = len(problem.semiknown_moments)
-    new_vars       = sum([mon[1][1].idx > problem.momentmatrix.max()
-                          for mon in problem.semiknown_moments.items()])
-    nvars = potential_nvars - known_vars - semiknown_vars + new_vars
+    known_moments = problem.known_moments
+    semiknowns    = problem.semiknown_moments
+    var_corresp   = {}
+
+    def substitute(moment):
+        """Write a moment as coefficient times variable of the file, where the
+        variable 0 denotes the constant.
+        """
+        coeff = 1.
+        while moment in semiknowns and moment not in known_moments:
+            subs_coeff, moment = semiknowns[moment]
+            coeff *= subs_coeff
+        if moment in known_moments:
+            return coeff * float(known_moments[moment]), 0
+        return coeff, var_corresp.setdefault(moment.idx, len(var_corresp) + 1)
+
+    def polynomial(moments_and_coeffs, constant=0.):
+        """Write a linear combination of moments, plus a constant, in the
+        variables of the file.
+        """
+        poly = {0: float(constant)}
+        for moment, coeff in moments_and_coeffs.items():
+            factor, var = substitute(moment)
+            poly[var]   = poly.get(var, 0.) + float(coeff) * factor
+        return poly
 
-    known_moments_indices = {mon.idx: coeff
-                             for mon, coeff in problem.known_moments.items()}
-    semiknowns  = {mon.idx: (subs[0], subs[1].idx)
-                   for mon, subs in problem.semiknown_moments.items()}
     lines       = []
-    var_corresp = {}
-    new_var     = 1
     block       = 1
     blockstruct = [str(problem.momentmatrix.shape[0])]
     for ii, row in enumerate(problem.momentmatrix):
-        for jj, var in enumerate(row):
+        for jj, idx in enumerate(row):
             if jj >= ii:
+                coeff, var = substitute(problem.compmoment_from_idx[idx])
                 if var == 0:
-                    pass
-                elif var == 1:
-                    lines.append(f"0\t{block}\t{ii+1}\t{jj+1}\t-1.0\n")
-                elif var in known_moments_indices.keys():
-                    coeff = known_moments_indices[var]
-                    lines.append(
-                        f"0\t{block}\t{ii+1}\t{jj+1}\t-{abs(coeff)}\n")
-                elif var in semiknowns.keys():
-                    coeff, subs = semiknowns[var]
-                    try:
-                        var = var_corresp[subs]
-                        lines.append(
-                            f"{var}\t{block}\t{ii+1}\t{jj+1}\t{coeff}\n")
-                    except KeyError:
-                        var_corresp[subs] = new_var
-                        lines.append(
-                            f"{new_var}\t{block}\t{ii+1}\t{jj+1}\t{coeff}\n")
-                        new_var += 1
-                else:
-                    try:
-                        var = var_corresp[var]
-                        lines.append(f"{var}\t{block}\t{ii+1}\t{jj+1}\t1.0\n")
-                    except KeyError:
-                        var_corresp[int(var)] = new_var
-                        lines.append(
-                            f"{new_var}\t{block}\t{ii+1}\t{jj+1}\t1.0\n")
-                        new_var += 1
+                    # The file specifies the constant matrix to be subtracted
+                    coeff = -coeff
+                if coeff != 0:
+                    lines.append(f"{var}\t{block}\t{ii+1}\t{jj+1}\t{coeff}\n")
+
+    # Prepare the linear constraints, in the form of polynomials that must be
+    # non-negative
+    upper_bounds = [polynomial({mon: -1}, ub)
+                    for mon, ub in problem.moment_upperbounds.items()]
+    lower_bounds = []
+    for mon, lb in problem.moment_lowerbounds.items():
+        if lb == 0 and mon in semiknowns:
+            coeff, subs = semiknowns[mon]
+            if coeff >= 0 and problem.moment_lowerbounds.get(subs, -1) >= 0:
+                continue    # Implied by the bound on the unknown part
+        lower_bounds.append(polynomial({mon: 1}, -lb))
+    equalities = []
+    for equality in problem.moment_equalities:
+        poly = polynomial(equality)
+        equalities.append(poly)
+        equalities.append({var: -coeff for var, coeff in poly.items()})
+    inequalities = [polynomial(ineq) for ineq in problem.moment_inequalities]
+    for constraints in (upper_bounds, lower_bounds, equalities, inequalities):
+        # Constraints where everything is known either hold or do not
+        constraints = [poly for poly in constraints
+                       if any(poly[var] != 0 for var in poly if var != 0)
+                       or poly[0] < -1e-8]
+        if len(constraints) == 0:
+            continue
+        block += 1
+        blockstruct.append(str(-len(constraints)))
+        for ii, poly in enumerate(constraints):
+            for var, coeff in poly.items():
+                if var == 0:
+                    coeff = -coeff
+                if coeff != 0:
+                    lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
 
     # Prepare objective
+    objective_dict     = polynomial(problem.objective)
+    objective_constant = objective_dict.pop(0)
+    if abs(objective_constant) > 1e-8:
+        warn(f"Export removed the constant {objective_constant} from the "
+             + "objective")
+    nvars     = len(var_corresp)
     objective = np.zeros(nvars)
-    for variable, coeff in problem.objective.items():
-        if variable == problem.One:
-            if abs(coeff) > 1e-8:
-                warn(f"Export removed the constant {coeff} from the objective")
-        else:
-            objective[var_corresp[variable.idx] - 1] = coeff
+    for var, coeff in objective_dict.items():
+        objective[var - 1] = coeff
     objective = str(objective.tolist()).replace("[", "").replace("]", "")
-    objective_constant = problem.objective[problem.One]
 
-    # Prepare upper bounds
-    if len(problem.moment_upperbounds) > 0:
-        block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_upperbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, ub in problem.moment_upperbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t-1.0\n")
-            if abs(ub) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t-{ub}\n")
-            ii += 1
-
-    # Prepare lower bounds
-    if len(problem.moment_lowerbounds) > 0:
-        block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_lowerbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, lb in problem.moment_lowerbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t1.0\n")
-            if abs(lb) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t{lb}\n")
-            ii += 1
-
-    # Prepare equalities
-    if len(problem.moment_equalities) > 0:
-        block += 1
-        ii     = 1
-        block_size = 2*len(problem.moment_equalities)
-        blockstruct.append(str(-block_size))
-    for equality in problem.moment_equalities:
-        for var, coeff in equality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                    lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{-coeff}\n")
-                else:
-                    lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
-                    lines.append(f"0\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
-        ii += 2
-
-    # Prepare inequalities
-    if len(problem.moment_inequalities) > 0:
-        block += 1
-        ii = 1
-        block_size = len(problem.moment_inequalities)
-        blockstruct.append(str(-block_size))
-    for inequality in problem.moment_inequalities:
-        sumcoeffs = 0
-        for var, coeff in inequality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                else:
-                    sumcoeffs += coeff
-        if sumcoeffs != 0:
-            lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
-        ii += 2
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
     if abs(objective_constant) > 1e-8:
-- 
2.43.0


From d8a728b5ed2af822c72fd0ed350b1f73cec92d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:19 +0000
Subject: [PATCH 48/59] fix: CSV export of names with commas, of numerical
 values and of constant or zero polynomials

---
 inflation/sdp/writer_utils.py | 122 ++++++++++++----------------------
 1 file changed, 43 insertions(+), 79 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index f0d9dd7..8ad1c70 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -27,95 +27,59 @@ def convert_to_human_readable(problem):
         matrix, the third is a list of variable upper and lower bounds, and the
         fourth is a list of equality constraints of the form ``line = 0``.
     """
-    matrix = deepcopy(problem.momentmatrix).astype(object)
-    ### Process moment matrix
-    # Replacer for constants
-    constants = {moment.idx: str(value)
-                 for moment, value in problem.known_moments.items()}
-    # Replacer for semiknowns
-    semiknowns = dict()
-    for key, val in problem.semiknown_moments.items():
-        val_str = val[1].name.replace(", ", ";")
-        semiknowns[key.idx] = f"{val[0]}*{val_str}"
-    semiknown_replacer = np.vectorize(lambda x: semiknowns.get(x, str(x)))
-    # Replacer for remaining symbols
-    monomials = dict()
-    for mon in problem.moments:
-        monomials[mon.idx] = mon.name.replace(", ", ";")
+    # Commas separate the columns of the table
+    def name(moment):
+        return moment.name.replace(", ", ";").replace(",", ";")
 
-    def replace_known(monom):
-        try:
-            replacement = monomials.get(float(monom), monom)
-        except ValueError:
-            replacement = monom
-        return replacement
-    known_replacer = np.vectorize(replace_known)
-    for ii, row in enumerate(matrix):
-        for jj, col in enumerate(row):
-            matrix[ii, jj] = constants.get(col, col)
-    matrix = semiknown_replacer(matrix)
-    matrix = np.triu(known_replacer(matrix).astype(object))
+    def polynomial(poly):
+        line = ""
+        for moment, coeff in poly.items():
+            coeff = float(coeff)
+            line += "+" if coeff >= 0 else "-"
+            if moment == problem.One:
+                line += str(abs(coeff))
+            elif abs(coeff) == 1:
+                line += name(moment)
+            else:
+                line += f"{abs(coeff)}*{name(moment)}"
+        return line.removeprefix("+") or "0"
+
+    ### Process moment matrix
+    symbols = {moment.idx: name(moment) for moment in problem.moments}
+    for moment, (coeff, other) in problem.semiknown_moments.items():
+        symbols[moment.idx] = f"{float(coeff)}*{name(other)}"
+    for moment, value in problem.known_moments.items():
+        symbols[moment.idx] = str(float(value))
+    matrix = deepcopy(problem.momentmatrix).astype(object)
+    for position, idx in np.ndenumerate(problem.momentmatrix):
+        matrix[position] = symbols.get(int(idx), str(idx))
+    matrix = np.triu(matrix)
 
     ### Process objective
-    is_first = True
-    try:
-        independent_term = float(problem.objective[problem.One])
-        if abs(independent_term) > 1e-8:
-            objective = str(independent_term)
-            is_first = False
-        else:
-            objective = ""
-    except KeyError:
-        objective = ""
+    objective = ""
+    independent_term = float(problem.objective.get(problem.One, 0.))
+    if abs(independent_term) > 1e-8:
+        objective = str(independent_term)
     for variable, coeff in problem.objective.items():
         if variable != problem.One:
-            if (coeff < 0) or is_first:
-                objective += f"{float(coeff)}*{variable.name}"
-            else:
-                objective += f"+{float(coeff)}*{variable.name}"
-            is_first = False
+            sign = "+" if (coeff >= 0) and objective else ""
+            objective += f"{sign}{float(coeff)}*{name(variable)}"
 
     ### Process bounds
     bounded_vars = sorted(list(set(problem.moment_upperbounds.keys()).union(
                                set(problem.moment_lowerbounds.keys()))),
                           key=lambda x: x.name)
-    bounds = np.zeros((len(bounded_vars), 3), dtype=object)
-    for idx, var in enumerate(bounded_vars):
-        bounds[idx, 0] = var
-        bounds[idx, 1] = problem.moment_lowerbounds.get(var, None)
-        bounds[idx, 2] = problem.moment_upperbounds.get(var, None)
+    bounds = []
+    for var in bounded_vars:
+        lower, upper = [None if bound is None else float(bound) for bound in
+                        (problem.moment_lowerbounds.get(var, None),
+                         problem.moment_upperbounds.get(var, None))]
+        bounds.append([name(var), lower, upper])
 
-    ### Process equalities
-    equalities = []
-    for eq in problem.moment_equalities:
-        equality = ""
-        for monom, coeff in eq.items():
-            equality += "+" if coeff > 0 else "-"
-            if monom == problem.One:
-                equality += str(abs(coeff))
-            else:
-                if np.isclose(abs(coeff), 1):
-                    equality += monom.name
-                else:
-                    equality += f"{abs(coeff)}*{monom.name}"
-        equalities.append(equality[1:] if equality[0] == "+" else equality)
-    
-    ### Process inequalities
-    inequalities = []
-    for ineq in problem.moment_inequalities:
-        inequality = ""
-        for monom, coeff in ineq.items():
-            inequality += "+" if coeff > 0 else "-"
-            if monom == problem.One:
-                inequality += str(abs(coeff))
-            else:
-                if np.isclose(abs(coeff), 1):
-                    inequality += monom.name
-                else:
-                    inequality += f"{abs(coeff)}*{monom.name}"
-        inequalities.append(inequality[1:] if inequality[0] == "+"
-                            else inequality)
-    return objective, matrix, bounds.tolist(), equalities, inequalities
+    ### Process equalities and inequalities
+    equalities = [polynomial(eq) for eq in problem.moment_equalities]
+    inequalities = [polynomial(ineq) for ineq in problem.moment_inequalities]
+    return objective, matrix, bounds, equalities, inequalities
 
 
 def write_to_csv(problem, filename):
@@ -140,7 +104,7 @@ def write_to_csv(problem, filename):
     f.write("Bounds:\n")
     f.write("Variable,lower,upper\n")
     for bound_line in bounds:
-        f.write(str(bound_line)[1:-1].replace(" ", ""))
+        f.write(",".join(map(str, bound_line)).replace(" ", ""))
         f.write("\n")
     f.write("\nEqualities (format: line = 0):\n")
     for equality in equalities:
-- 
2.43.0


From e0e82db58b4de5b33181b82d708cd249de414525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 49/59] fix: sign of SDP certificates obtained from the primal
 formulation

---
 inflation/sdp/sdp_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 9617fb1..08ed1e7 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -475,7 +475,8 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             else:
                 x_values = dict(zip(variables, x_mosek.level()))
                 if mask_matrices:
-                    ymat = G.dual().reshape([mat_dim, mat_dim])
+                    # The duals of a maximization problem are non-positive
+                    ymat = -G.dual().reshape([mat_dim, mat_dim])
                     xmat = G.level().reshape([mat_dim, mat_dim])
 
             status = M.getProblemStatus()
-- 
2.43.0


From 8c658ef2186689b3c420fc8d807964da41f22b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 50/59] fix: contribution of the objective to the certificates

---
 inflation/lp/lp_utils.py   | 9 +++++----
 inflation/sdp/sdp_utils.py | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 186c2c9..7122751 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -515,7 +515,8 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
                 print("The solution status is unknown.")
                 print(f"   Termination code: {term_tuple}")
 
-            # Extract the certificate as a sparse matrix: y.b - c.x <= 0
+            # Extract the certificate as a sparse matrix: y.b - c.x >= 0. The
+            # objective only participates if it has been optimized
             if relax_known_vars:
                 y_values = y_values[nof_primal_constraints - nof_known_vars*2:]
             else:
@@ -524,9 +525,9 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
             cert_col = [*range(nof_primal_variables)]
             cert_data = np.zeros((nof_primal_variables,))
             obj_data = objective.toarray().ravel()
-            objective_unknown_cols = np.setdiff1d(objective.col, known_vars.col)
-            cert_data[objective_unknown_cols] = -obj_data[objective_unknown_cols]
-            cert_data[known_vars.col] = y_values[:nof_known_vars] # Assumes known values coded as equalities
+            if success and not (relax_known_vars or relax_inequalities):
+                cert_data[objective.col] = -obj_data[objective.col]
+            cert_data[known_vars.col] += y_values[:nof_known_vars] # Assumes known values coded as equalities
             if relax_known_vars:
                 cert_data[known_vars.col] += y_values[nof_known_vars:(2*nof_known_vars)]
             sparse_certificate = coo_array((cert_data, (cert_row, cert_col)),
diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 08ed1e7..f4092b9 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -522,7 +522,8 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             certificate = {x: 0 for x in known_vars}
 
             # c0(P(a...|x...))
-            if not feas_as_optim:
+            # (certificates of infeasibility do not depend on the objective)
+            if not feas_as_optim and status_str == "feasible":
                 for x in set(var_objective).intersection(known_vars):
                     certificate[x] += var_objective[x]
 
@@ -530,7 +531,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             if mask_matrices:
                 for x in set(Fi).intersection(known_vars):
                     support = Fi[x].nonzero()
-                    certificate[x] = np.dot(ymat[support], Fi[x][support].toarray().ravel())
+                    certificate[x] += np.dot(ymat[support], Fi[x][support].toarray().ravel())
 
             # + I · b
             if var_inequalities:
-- 
2.43.0


From 3dc6fbe25ba77548ae7a0a64875eeecc1af97b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 51/59] fix: string form of empty SDP certificates

---
 inflation/sdp/InflationSDP.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f64cf36..21fa2a6 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1041,8 +1041,11 @@ class InflationSDP:
                     polynomial_as_str += mon.name
                 else:
                     polynomial_as_str += "{0}*{1}".format(abs(coeff), mon.name)
-        return polynomial_as_str[1:] if polynomial_as_str[
-                                            0] == "+" else polynomial_as_str
+        if not len(polynomial_as_str):  # Failsafe for empty dictionary.
+            polynomial_as_str = "0"
+        elif polynomial_as_str[0] == "+":
+            polynomial_as_str = polynomial_as_str[1:]
+        return polynomial_as_str
 
     def certificate_as_string(self,
                               clean: bool = True,
-- 
2.43.0


From 2a7549ba07421bc278dbfc2458dfaceb0b579ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 52/59] fix: rounding of certificates chopped after normalizing
 and failed when nothing was left

---
 inflation/utils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/inflation/utils.py b/inflation/utils.py
index 9ad4853..6f81d20 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -81,16 +81,14 @@ def clean_coefficients(cert: Dict[str, float],
     if not cert:
         return cert
     chop_tol = np.abs(chop_tol)
-    coeffs = np.asarray(list(cert.values()))
-    if chop_tol > 0:
-        # Try to take the smallest nonzero one and make it 1, when possible
-        normalising_factor = np.min(np.abs(coeffs[np.abs(coeffs) > chop_tol]))
-    else:
-        # Take the largest nonzero one and make it 1
-        normalising_factor = np.max(np.abs(coeffs[np.abs(coeffs) > chop_tol]))
-    coeffs /= normalising_factor
+    coeffs = np.array(list(cert.values()), dtype=float)
     # Set to zero very small coefficients
     coeffs[np.abs(coeffs) <= chop_tol] = 0
+    nonzero = np.abs(coeffs[coeffs != 0])
+    if nonzero.size > 0:
+        # Try to take the smallest nonzero one and make it 1, when possible,
+        # or the largest one if no tolerance is given
+        coeffs /= np.min(nonzero) if chop_tol > 0 else np.max(nonzero)
     # Round
     coeffs = np.round(coeffs, decimals=round_decimals)
     return dict(zip(cert.keys(), coeffs.flat))
-- 
2.43.0


From 9a7ec9a03221c5f2ca47392e6d5821daff0f8142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 53/59] fix: certificates of SDPs whose objective contains
 known moments are valid for other distributions

---
 inflation/sdp/InflationSDP.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 21fa2a6..b6ed6b4 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -870,7 +870,8 @@ class InflationSDP:
         if not self._relaxation_has_been_generated:
             raise Exception("Relaxation is not generated yet. " +
                             "Call \"InflationSDP.get_relaxation()\" first")
-        if feas_as_optim and len(self._processed_objective) > 1:
+        if feas_as_optim and set(self._processed_objective).difference(
+                self.known_moments, {self.One}):
             warn("You have a non-trivial objective, but set to solve a " +
                  "feasibility problem as optimization. Setting "
                  + "feas_as_optim=False and optimizing the objective...")
@@ -2177,19 +2178,11 @@ class InflationSDP:
         self.extra_inequalities = []
 
     def _update_objective(self) -> None:
-        """Process the objective with the information from known_moments
-        and semiknown_moments.
+        """Process the objective with the information from semiknown_moments.
+        The values of known_moments are substituted when solving, so that the
+        certificates contain the dependence of the objective on them.
         """
         self._processed_objective = self.objective.copy()
-        knowns_to_process = set(self.known_moments.keys()
-                                ).intersection(
-                                    self._processed_objective.keys())
-        knowns_to_process.discard(self.One)
-        for m in knowns_to_process:
-            value = self.known_moments[m]
-            self._processed_objective[self.One] += \
-                self._processed_objective[m] * value
-            del self._processed_objective[m]
         semiknowns_to_process = set(self.semiknown_moments.keys()
                                     ).intersection(
                                         self._processed_objective.keys())
-- 
2.43.0


From 1469d37fb0c4fd8c34d13bc79e6c2436f1d01f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:32 +0000
Subject: [PATCH 54/59] fix: critical values from certificates when values
 implied by the specified ones enter the certificates

---
 inflation/optimization_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index f2698d7..9017be0 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -231,7 +231,10 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
     solve_dual     = kwargs.get("solve_dual", True)
     solverparameters = kwargs.get("solverparameters", None)
 
-    symbol_names = {str(key): val for key, val in symbolic_values.items()}
+    # The certificates contain all the moments that are assigned values, which
+    # may be more than those specified
+    program.set_values(symbolic_values, only_specified_values=only_specified)
+    symbol_names = {mon.name: val for mon, val in program.known_moments.items()}
     func_to_minimize = lambdify([param], -param, modules='numpy', cse=True)
     sp_bounds = Bounds(lb=bounds[0], ub=bounds[1])
     x0 = np.array([bounds[0]])
@@ -252,7 +255,7 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
                       solverparameters=solverparameters)
 
         # The feasible region is where the certificate is positive
-        nonneg_expr = sum(symbol_names[var] * coeff
+        nonneg_expr = sum(symbol_names.get(var, 0) * coeff
                           for var, coeff in
                           program.solution_object["dual_certificate"].items())
         nonneg_func = lambdify([param],
-- 
2.43.0


From 8f6554f8df6ed181eb0f7d85b32565fad21b59a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:41 +0000
Subject: [PATCH 55/59] fix: bisection over values for which not even the
 relaxed program is feasible

---
 inflation/optimization_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index 9017be0..706c9d3 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -164,13 +164,15 @@ def _maximize_via_bisect(program: Union[InflationLP, InflationSDP],
         program.solve(feas_as_optim=True,
                   solve_dual=solve_dual,
                   solverparameters=solverparameters)
+        # The values may be infeasible even for the relaxed program
+        maximum = program.objective_value if program.success else -np.inf
         if verbose:
             print(f"Parameter = {value:<6.4g}   " +
-                  f"Maximum smallest eigenvalue: {program.objective_value:10.4g}")
+                  f"Maximum smallest eigenvalue: {maximum:10.4g}")
         discovered_certificate = program.certificate_as_dict()
         if len(discovered_certificate):  # Checking if certificate has any nonzero coefficients
             discovered_certificates.append((value, discovered_certificate))
-        return program.objective_value+precision/2048
+        return maximum+precision/2048
     assert f(bounds[1])+precision/2048 < 0, f"Certificate of infeasibility for v=1 is {f(bounds[1])}, but must be <{precision/2048}."
     assert f(bounds[0])+precision/2048 > 0, f"Certificate of feasibility for v=0 is {f(bounds[0])}, but must be nonnegative."
     crit_param = bisect(f, bounds[0], bounds[1], **bisect_kwargs, full_output=False)
-- 
2.43.0


From 92c788964dff882e887de97303efbc1d82814d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:50 +0000
Subject: [PATCH 56/59] fix: precision of critical values obtained from
 certificates

---
 inflation/optimization_utils.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index 706c9d3..8d747a2 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -238,23 +238,23 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
     program.set_values(symbolic_values, only_specified_values=only_specified)
     symbol_names = {mon.name: val for mon, val in program.known_moments.items()}
     func_to_minimize = lambdify([param], -param, modules='numpy', cse=True)
-    sp_bounds = Bounds(lb=bounds[0], ub=bounds[1])
     x0 = np.array([bounds[0]])
-    new_ub = bounds[1]-precision
-    old_ub = np.inf
+    new_ub = bounds[1]
+    seed = bounds[1]
     discovered_certificates = []
     # Get a certificate for a value, find the critical value for it (that which
-    # makes the certificate zero), and repeat with this new value
-    while new_ub+precision < old_ub:
-        old_ub = new_ub
-        evaluated_values = make_numerical(symbolic_values,
-                                          {param: new_ub+precision})
+    # makes the certificate zero), and repeat with a value slightly below it,
+    # until that value is feasible
+    while seed >= bounds[0]:
+        evaluated_values = make_numerical(symbolic_values, {param: seed})
         program.set_values(evaluated_values,
                            use_lpi_constraints=use_lpi,
                            only_specified_values=only_specified)
         program.solve(feas_as_optim=True,
                       solve_dual=solve_dual,
                       solverparameters=solverparameters)
+        if program.success and program.objective_value + precision/2048 > 0:
+            break
 
         # The feasible region is where the certificate is positive
         nonneg_expr = sum(symbol_names.get(var, 0) * coeff
@@ -267,19 +267,22 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
         constraints = {"type": "ineq", "fun": nonneg_func}
         solution = minimize(func_to_minimize, x0,
                             method='SLSQP',
-                            bounds=sp_bounds,
+                            bounds=Bounds(lb=bounds[0], ub=seed),
                             constraints=constraints,
                             options={'disp': False})
+        if solution['x'][0] >= seed:
+            break
         new_ub = solution['x'][0]
         discovered_certificates.append((new_ub , program.certificate_as_dict()))
         if verbose:
-            print(f"Current critical value: {new_ub} (seeded by {old_ub+precision})")
-    assert len(discovered_certificates)>1, """
+            print(f"Current critical value: {new_ub} (seeded by {seed})")
+        seed = new_ub - precision/2
+    assert len(discovered_certificates) > 0, """
     Critical error - optimization failed to yield a useful certificate
     even when given the initial (infeasible) seed.
     """
 
-    crit_param = max(new_ub, old_ub)
+    crit_param = new_ub
     if return_last:
         return crit_param, discovered_certificates[-1][-1]
     else:
-- 
2.43.0


From caef5ad90416d27f30798891d66f3e08bf7d6ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:18 +0000
Subject: [PATCH 57/59] fix: rounding errors in the values of moments regarded
 as contradicting their bounds

---
 inflation/sdp/InflationSDP.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index b6ed6b4..b2d4452 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2220,9 +2220,10 @@ class InflationSDP:
             if isinstance(value, Real) and mon in bounds:
                 b = bounds[mon]
                 condition = (b >= value) if typ == "up" else (b <= value)
-                assert condition, (f"Value {value} assigned for " +
-                                   f"monomial {mon} contradicts the " +
-                                   f"assigned {dir}er bound of {b}.")
+                # Rounding errors are not contradictions
+                assert condition or np.isclose(value, b), (
+                    f"Value {value} assigned for monomial {mon} contradicts " +
+                    f"the assigned {dir}er bound of {b}.")
                 redundant[mon] = bounds.pop(mon)
 
     ###########################################################################
-- 
2.43.0


From aeb52b6cf40e112ea022841b9eec7defb1ee2b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 58/59] fix: products only reordered when looking for
 symmetries were later taken as simplified

---
 inflation/sdp/InflationSDP.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index b2d4452..73d5a01 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -215,6 +215,7 @@ class InflationSDP:
                 lambda mon: self.all_commuting_q_1d(self.mon_to_lexrepr(mon))
 
         self.canon_lexmon_from_hash     = dict()
+        self.commuted_lexmon_from_hash  = dict()
         self.canonsym_lexmon_from_hash  = dict()
         # These next properties are reset during generate_relaxation, but
         # are needed in init so as to be able to test the Monomial constructor
@@ -2429,12 +2430,16 @@ class InflationSDP:
         numpy.ndarray
             Moment in canonical form as 1D array.
         """
+        # Reordering alone does not simplify products to canonical form
+        known_lexmons = (self.commuted_lexmon_from_hash
+                         if apply_only_commutations
+                         else self.canon_lexmon_from_hash)
         key = tuple(lexmon)
         try:
-            return self.canon_lexmon_from_hash[key]
+            return known_lexmons[key]
         except KeyError:
             if len(lexmon) == 0 or np.array_equiv(lexmon, 0):
-                self.canon_lexmon_from_hash[key] = lexmon
+                known_lexmons[key] = lexmon
                 return lexmon
             else:
                 new_lexmon = \
@@ -2444,8 +2449,8 @@ class InflationSDP:
                         self.all_operators_commute,
                         apply_only_commutations=apply_only_commutations)
                 new_key = tuple(new_lexmon)
-                self.canon_lexmon_from_hash[key]     = new_lexmon
-                self.canon_lexmon_from_hash[new_key] = new_lexmon
+                known_lexmons[key]     = new_lexmon
+                known_lexmons[new_key] = new_lexmon
                 return new_lexmon
 
     def mon_to_lexrepr(self, mon: np.ndarray) -> np.ndarray:
-- 
2.43.0


From f26beb39ecf96e4b8847c6c63ff2ab2d6164f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:19 +0000
Subject: [PATCH 59/59] fix: legacy names of moments of parties with longer
 names were ambiguous

---
 inflation/lp/monomial_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/monomial_classes.py b/inflation/lp/monomial_classes.py
index c8b9fc3..761d64c 100644
--- a/inflation/lp/monomial_classes.py
+++ b/inflation/lp/monomial_classes.py
@@ -182,7 +182,8 @@ class InternalAtomicMonomial(object):
             parties       = np.take(self.context.names, party_indices.tolist())
             inputs  = [str(input) for input in self.rectified_ndarray[:, -2]]
             outputs = [str(output) for output in self.rectified_ndarray[:, -1]]
-            p_divider = ""
+            # Without a divider, parties A and BC are not told from AB and C
+            p_divider = "" if all(len(p) == 1 for p in parties) else ","
             # We will probably never have more than 1 digit cardinalities,
             # but who knows...
             i_divider = "" if all(len(i) == 1 for i in inputs) else ","
-- 
2.43.0

