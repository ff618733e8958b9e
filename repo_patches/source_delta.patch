From c0374effd21ed873dfad065468d25bb086ddfbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 01/63] fix: scale
 OpenComputedReaction.product_atomic_fractions by the product coefficient

---
 src/rxn_network/reactions/open.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 70c8e5d..d6855b2 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -197,7 +197,7 @@ class OpenComputedReaction(ComputedReaction):
             raise ValueError("Reaction is not balanced")
 
         return {
-            c.reduced_composition: sum(c[el] for el in self.elements) / self.num_atoms
+            c.reduced_composition: coeff * sum(c[el] for el in self.elements) / self.num_atoms
             for c, coeff in self.product_coeffs.items()
         }
 
-- 
2.43.0


From c81fad0fb7f8e364fe008250b7454203baa389a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 02/63] fix: keep chemical potentials when normalizing an
 OpenComputedReaction

---
 src/rxn_network/reactions/open.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index d6855b2..53cd1ed 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -179,6 +179,28 @@ class OpenComputedReaction(ComputedReaction):
             self.lowest_num_errors,
         )
 
+    def normalize_to(self, comp: Composition, factor: float = 1) -> OpenComputedReaction:
+        """Normalizes the reaction to one of the compositions via the provided factor.
+
+        See ComputedReaction.normalize_to(). The chemical potentials are retained.
+
+        Args:
+            comp: Composition object to normalize to
+            factor: factor to normalize to. Defaults to 1.
+        """
+        return self.from_computed_rxn(super().normalize_to(comp, factor), self.chempots)
+
+    def normalize_to_element(self, element: Element, factor: float = 1) -> OpenComputedReaction:
+        """Normalizes the reaction to one of the elements.
+
+        See ComputedReaction.normalize_to_element(). The chemical potentials are retained.
+
+        Args:
+            element (Element/Species): Element to normalize to.
+            factor (float): Factor to normalize to. Defaults to 1.
+        """
+        return self.from_computed_rxn(super().normalize_to_element(element, factor), self.chempots)
+
     @cached_property
     def reactant_atomic_fractions(self) -> dict:
         """Returns the atomic mixing ratio of reactants in the reaction."""
-- 
2.43.0


From 61cb65b0e45ffc53b49915e7168559c7475c4708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 03/63] fix: accept integer reaction coefficients

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 668b91b..a4f489a 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -56,7 +56,7 @@ class BasicReaction(Reaction):
                 phases may be shuffled or removed entirely).
         """
         self._compositions = [Composition(c) for c in compositions]
-        self._coefficients = np.array(coefficients)
+        self._coefficients = np.array(coefficients, dtype=float)
 
         self.reactant_coeffs = {
             comp: coeff for comp, coeff in zip(self._compositions, self._coefficients, strict=False) if coeff < 0
-- 
2.43.0


From 98e46b1009d3c353426b7ded5bc107581b4b48b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 04/63] fix: compare reactions phase by phase and hash them
 consistently with equality

---
 src/rxn_network/reactions/basic.py    | 14 ++++++++++++--
 src/rxn_network/reactions/computed.py |  4 +---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index a4f489a..26fa592 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -476,11 +476,21 @@ class BasicReaction(Reaction):
         if not set(self.reactants) == set(other.reactants):
             return False
 
-        return set(self.products) == set(other.products)
+        if not set(self.products) == set(other.products):
+            return False
+
+        return all(
+            np.isclose(coeff, other_coeffs[comp])
+            for coeffs, other_coeffs in (
+                (self.reactant_coeffs, other.reactant_coeffs),
+                (self.product_coeffs, other.product_coeffs),
+            )
+            for comp, coeff in coeffs.items()
+        )
 
     def __hash__(self):
         return hash(
-            (self.chemical_system, tuple(sorted(self.coefficients)))
+            (self.chemical_system, frozenset(self.reactants), frozenset(self.products))
         )  # not checking here for reactions that are multiples (too expensive)
 
     def __str__(self) -> str:
diff --git a/src/rxn_network/reactions/computed.py b/src/rxn_network/reactions/computed.py
index 0b2a2a1..c32c062 100644
--- a/src/rxn_network/reactions/computed.py
+++ b/src/rxn_network/reactions/computed.py
@@ -228,6 +228,4 @@ class ComputedReaction(BasicReaction):
 
     def __hash__(self):
         """Must be redefined due to overriding __eq__."""
-        return hash(
-            (self.chemical_system, tuple(sorted(self.coefficients)))
-        )  # not checking here for reactions that are multiples (too expensive)
+        return BasicReaction.__hash__(self)
-- 
2.43.0


From 71c74e3d3d5dbee9b3a4ad7549452c8052757633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 05/63] fix: list the reactions of a ReactionSet built without
 extra data

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index a8ef34e..c5f707b 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -66,7 +66,7 @@ class ReactionSet(MSONable):
         self.open_elem = open_elem
         self.chempot = chempot
         if all_data is None:
-            self.all_data = {int(i): np.array([]) for i in self.indices}
+            self.all_data = {int(i): np.array([{} for _ in v]) for i, v in self.indices.items()}
         else:
             self.all_data = all_data
 
-- 
2.43.0


From 5802d4e1e9235bc0799911fb515d5eff42d3bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 06/63] fix: filter duplicate reactions on a single-CPU ray
 cluster

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index c5f707b..ffd7b2d 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -425,7 +425,7 @@ class ReactionSet(MSONable):
         if parallelize:
             if not ray.is_initialized():
                 initialize_ray()
-            num_cpus = int(ray.cluster_resources()["CPU"]) - 1
+            num_cpus = max(int(ray.cluster_resources()["CPU"]) - 1, 1)
             chunk_refs = []
 
         ensure_idxs = {size: [] for size in self.indices}  # type: ignore
-- 
2.43.0


From fdf1cc64f2f650c88e9120caecce46af419b3350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 07/63] fix: find every reaction producing a phase in
 get_rxns_by_product

The first entry (index 0) was taken for a missing product, only the first
polymorph was considered, and an empty answer was a list even when a
ReactionSet was asked for.
---
 src/rxn_network/reactions/reaction_set.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index ffd7b2d..7f994b4 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -343,7 +343,7 @@ class ReactionSet(MSONable):
             {idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula in reactants}
         )
 
-        if not reactant_indices:
+        if not reactant_indices and not return_set:
             return []
 
         idxs = {}  # type: ignore
@@ -375,19 +375,15 @@ class ReactionSet(MSONable):
         """
         product = Composition(product).reduced_formula
 
-        product_index = None
-        for idx, e in enumerate(self.entries):
-            if e.composition.reduced_formula == product:
-                product_index = idx
-                break
+        product_indices = [idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula == product]
 
-        if not product_index:
+        if not product_indices and not return_set:
             return []
 
         idxs = {}  # type: ignore
         for size, indices in self.indices.items():
             idxs[size] = []
-            contains_product = np.isin(indices, product_index).any(axis=1)
+            contains_product = np.isin(indices, product_indices).any(axis=1)
 
             for idx, coeffs, indices in zip(
                 np.argwhere(contains_product).flatten(),
@@ -395,7 +391,7 @@ class ReactionSet(MSONable):
                 self.indices[size][contains_product], strict=False,
             ):
                 p_indices = {i for c, i in zip(coeffs, indices, strict=False) if c > -1e-12}
-                if product_index in p_indices:
+                if not p_indices.isdisjoint(product_indices):
                     idxs[size].append(idx)
 
         if return_set:
-- 
2.43.0


From ec0f1323b8eef446c21b578bdfa3d77ea23b67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 08/63] fix: order the polymorphs of a ReactionSet consistently

Sorting a set of entries by composition leaves polymorphs in an order that
depends on their hashes, so add_rxns and add_rxn_set could refuse reactions
over the set's own entries.
---
 src/rxn_network/reactions/reaction_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 7f994b4..1dc3e9c 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -123,7 +123,8 @@ class ReactionSet(MSONable):
         if not entries:
             entries = cls._get_unique_entries(rxns)
 
-        entries = sorted(set(entries), key=lambda r: r.composition)
+        # break ties between polymorphs by ID, so that the same entries are always in the same order
+        entries = sorted(set(entries), key=lambda e: (e.composition, str(getattr(e, "unique_id", e.entry_id))))
 
         # need to index by unique ID in case mixing different temperatures
         all_entry_indices = {}
-- 
2.43.0


From 43b435478a40f97d50e7722064f50091b2a94712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 09/63] fix: accept whole-number temperatures given as floats

The tables are keyed by integer strings, so 300.0 raised a KeyError while 300 and
300.5 worked.
---
 src/rxn_network/entries/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index aaecfa8..639a385 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -208,7 +208,7 @@ class GibbsComputedEntry(ComputedEntry):
                 )
                 sum_g_i += amt * g_interp(temperature)
         else:
-            sum_g_i = sum(amt * G_ELEMS[str(temperature)][elem] for elem, amt in elems.items())
+            sum_g_i = sum(amt * G_ELEMS[str(int(temperature))][elem] for elem, amt in elems.items())
 
         return sum_g_i
 
-- 
2.43.0


From 4b5c179383a5a790466234cdd759c3e759dd58a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 10/63] fix: evaluate temperature-dependent corrections at the
 new temperature

GibbsComputedEntry kept the atmospheric CO2 correction of the old temperature, and
experimental entries carrying any other adjustment (e.g. stabilized ones) could not
be moved to a new temperature at all.
---
 src/rxn_network/entries/experimental.py | 3 ++-
 src/rxn_network/entries/gibbs.py        | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 919e021..1815a53 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -80,7 +80,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         """
         new_entry_dict = self.as_dict()
         for adj in new_entry_dict["energy_adjustments"]:
-            adj["temp"] = new_temperature
+            if "temp" in adj:  # temperature-dependent correction
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index 639a385..76b9020 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -131,6 +131,9 @@ class GibbsComputedEntry(ComputedEntry):
         """
         new_entry_dict = self.as_dict()
         new_entry_dict["temperature"] = new_temperature
+        for adj in new_entry_dict["energy_adjustments"]:
+            if "temp" in adj:  # temperature-dependent correction
+                adj["temp"] = new_temperature
 
         return self.from_dict(new_entry_dict)
 
-- 
2.43.0


From 6ec112908f6489ceb1521c55e0c9b17d5dd0a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 11/63] fix: scale tabulated energies to the number of formula
 units

An experimental entry for a multiple of the reduced formula (e.g. Al4O6) had the
energy of a single formula unit.
---
 src/rxn_network/entries/experimental.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 1815a53..d5cb80d 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -55,7 +55,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         self._validate_temperature(formula, temperature)
         self._temperature = temperature
 
-        energy = self._get_energy(formula, temperature)
+        _, factor = composition.get_reduced_composition_and_factor()
+        energy = factor * self._get_energy(formula, temperature)  # tabulated per reduced formula
 
         super().__init__(
             composition,
-- 
2.43.0


From 3666b4521e2b6044395a86491dc14ee77307e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 12/63] fix: keep polymorphs apart when changing the
 temperature of a ReactionSet

New entries were looked up by composition, so all polymorphs of a composition were
replaced by one of them.
---
 src/rxn_network/reactions/reaction_set.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 1dc3e9c..bfbaab1 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -536,12 +536,10 @@ class ReactionSet(MSONable):
         Returns:
             The new ReactionSet containing the recalculated reactions.
         """
-        new_rxns = []
-        entries = {e.composition: e.get_new_temperature(new_temp) for e in self.entries}
-        for rxn in tqdm(list(self.get_rxns())):
-            new_rxns.append(rxn.get_new_temperature(new_temp, entries))
+        # entries are replaced by position, since polymorphs share the same composition
+        entries = [e.get_new_temperature(new_temp) for e in self.entries]
 
-        return ReactionSet.from_rxns(new_rxns, open_elem=self.open_elem, chempot=self.chempot)
+        return ReactionSet(entries, self.indices, self.coeffs, self.open_elem, self.chempot, self.all_data)
 
     def compute_at_temperatures(self, temp_list: list[int]) -> dict[int, ReactionSet]:
         """Recomputes reaction energies at each temperature in a list of temperatures.
@@ -555,16 +553,7 @@ class ReactionSet(MSONable):
                 A mapping of temperature to `ReactionSet` with reaction energies computed at
                 that temperature.
         """
-        all_rxns = list(self.get_rxns())
-        result = {}
-        for t in tqdm(temp_list, desc="Computing reaction energies..."):
-            new_rxns = []
-            entries = {e.composition: e.get_new_temperature(t) for e in self.entries}
-            for rxn in all_rxns:
-                new_rxns.append(rxn.get_new_temperature(t, entries))
-
-            result[t] = ReactionSet.from_rxns(new_rxns, open_elem=self.open_elem, chempot=self.chempot)
-        return result
+        return {t: self.set_new_temperature(t) for t in tqdm(temp_list, desc="Computing reaction energies...")}
 
     def _get_rxns_by_indices(self, idxs) -> Iterable[ComputedReaction | OpenComputedReaction]:
         """Return a list of reactions with the given indices."""
-- 
2.43.0


From 3ca30fc6d51bb0a27fe087f144989b8664e8fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 13/63] fix: let OpenComputedReaction.get_new_temperature be
 called like ComputedReaction's

---
 src/rxn_network/reactions/open.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 53cd1ed..0fe3fea 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -104,7 +104,7 @@ class OpenComputedReaction(ComputedReaction):
 
         return ComputedReaction(**kwargs) if not chempots else cls(chempots=chempots, **kwargs)
 
-    def get_new_temperature(self, new_temperature: float, entries_at_temp: dict | None) -> OpenComputedReaction:
+    def get_new_temperature(self, new_temperature: float, entries_at_temp: dict | None = None) -> OpenComputedReaction:
         """Returns a new reaction with the temperature changed.
 
         Args:
-- 
2.43.0


From 45083c4190d9aec01f961884d32b0f64b3313ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 14/63] fix: copy interpolated and experimental entries without
 losing their class

ComputedEntry.copy() returns a plain ComputedEntry, so an interpolated entry that
went through get_new_temperature() could not be used for another temperature.
---
 src/rxn_network/entries/experimental.py | 5 +++++
 src/rxn_network/entries/interpolated.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index d5cb80d..e9c7ce5 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import hashlib
 import math
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 from monty.json import MontyDecoder
@@ -132,6 +133,10 @@ class ExperimentalReferenceEntry(ComputedEntry):
 
         return data[temperature]
 
+    def copy(self) -> ExperimentalReferenceEntry:
+        """Returns a deepcopy of the entry."""
+        return deepcopy(self)
+
     @property
     def temperature(self) -> float:
         """Returns temperature used to calculate entry's energy."""
diff --git a/src/rxn_network/entries/interpolated.py b/src/rxn_network/entries/interpolated.py
index c0d8362..3dd3f56 100644
--- a/src/rxn_network/entries/interpolated.py
+++ b/src/rxn_network/entries/interpolated.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -94,6 +95,10 @@ class InterpolatedEntry(ComputedEntry):
         )
         return self.copy()
 
+    def copy(self) -> InterpolatedEntry:
+        """Returns a deepcopy of the InterpolatedEntry object."""
+        return deepcopy(self)
+
     @property
     def unique_id(self) -> str:
         """Returns a unique ID for the entry."""
-- 
2.43.0


From 0a3d29f8d2cffe0120586b0248c5092bb6f0d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 15/63] fix: find the k shortest loopless paths with Yen's
 algorithm

The root path was compared without the spur node, so edges that do not leave the
spur node were removed and paths got lost; the nodes of the root path stayed in the
graph, so the search could return to them; and of several parallel edges only one
was removed, and an arbitrary one was taken for the cost and the reaction.
---
 src/rxn_network/network/network.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index a4e7ffa..f66476d 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -253,7 +253,7 @@ class ReactionNetwork(Network):
 
         for step, node in enumerate(path):
             if g.get_node_data(node).description.value == NetworkEntryType.Products.value:
-                e = g.get_edge_data(path[step - 1], node)
+                e = min(g.get_all_edge_data(path[step - 1], node), key=lambda e: get_edge_weight(e, cf))
 
                 rxns.append(e)
                 costs.append(get_edge_weight(e, cf))
@@ -375,7 +375,7 @@ def yens_ksp(
         """Calculates path cost given a list of nodes."""
         cost = 0
         for j in range(len(nodes) - 1):
-            cost += get_edge_weight(g.get_edge_data(nodes[j], nodes[j + 1]), cf)
+            cost += min(get_edge_weight(e, cf) for e in g.get_all_edge_data(nodes[j], nodes[j + 1]))
         return cost
 
     def get_edge_weight_with_cf(edge_obj):
@@ -411,15 +411,18 @@ def yens_ksp(
 
             removed_edges = []
 
+            # leave the root path in a new way ...
             for path in a:
-                if len(path) - 1 > i and root_path == path[:i]:
-                    try:
-                        e = g.get_edge_data(path[i], path[i + 1])
-                    except rx.NoEdgeBetweenNodes:
-                        continue
-
-                    g.remove_edge(path[i], path[i + 1])
-                    removed_edges.append((path[i], path[i + 1], e))
+                if len(path) - 1 > i and path[: i + 1] == prev_path[: i + 1]:
+                    while g.has_edge(path[i], path[i + 1]):
+                        removed_edges.append((path[i], path[i + 1], g.get_edge_data(path[i], path[i + 1])))
+                        g.remove_edge(path[i], path[i + 1])
+
+            # ... and do not return to it
+            for node in root_path:
+                for source, target, e in g.in_edges(node):
+                    removed_edges.append((source, target, e))
+                    g.remove_edge(source, target)
 
             spur_path = rx.dijkstra_shortest_paths(  # type: ignore
                 g, spur_node, target_node, weight_fn=get_edge_weight_with_cf
-- 
2.43.0


From 697f21a7ab2376b58edd08f8fa114382aa30ebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 16/63] fix: compare reactions with other objects

Comparing a reaction with anything but a reaction, or a computed with a basic
reaction, raised an AttributeError instead of being false.
---
 src/rxn_network/reactions/basic.py    | 3 +++
 src/rxn_network/reactions/computed.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 26fa592..e311f94 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -461,6 +461,9 @@ class BasicReaction(Reaction):
         if self is other:
             return True
 
+        if not isinstance(other, BasicReaction):
+            return False
+
         if not self.chemical_system == other.chemical_system:
             return False
 
diff --git a/src/rxn_network/reactions/computed.py b/src/rxn_network/reactions/computed.py
index c32c062..438bed1 100644
--- a/src/rxn_network/reactions/computed.py
+++ b/src/rxn_network/reactions/computed.py
@@ -217,6 +217,9 @@ class ComputedReaction(BasicReaction):
         return v
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, ComputedReaction):
+            return False
+
         is_equal = BasicReaction.__eq__(self, other)
 
         if is_equal:
-- 
2.43.0


From 42b6c06b6e26f2b7ffb20529e9128e5132714a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 17/63] fix: forget the loopback edges of previous precursors

Setting other precursors left the loopback edges that were only possible with the
old ones, so pathways could use phases that are no longer precursors. Loopback edges
which are there from the start are no longer added a second time.
---
 src/rxn_network/network/network.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index f66476d..ac083f4 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -148,6 +148,17 @@ class ReactionNetwork(Network):
             else:
                 raise ValueError("Old precursors node not found in graph!")
 
+            # loopback edges may rely on the old precursors
+            loopback_edges = [(s, t) for s, t, e in g.weighted_edge_list() if e == "loopback_edge"]
+            g.remove_edges_from(loopback_edges)
+            g.add_edges_from(
+                [
+                    (s, t, "loopback_edge")
+                    for s, t in dict.fromkeys(loopback_edges)
+                    if g.get_node_data(s).entries == g.get_node_data(t).entries
+                ]
+            )
+
         precursors_node = g.add_node(precursors_entry)
 
         edges_to_add = []
@@ -162,7 +173,7 @@ class ReactionNetwork(Network):
                 for node2 in g.node_indices():
                     entry2 = g.get_node_data(node2)
                     if entry2.description.value == NetworkEntryType.Reactants.value:
-                        if precursors.issuperset(entry2.entries):
+                        if precursors.issuperset(entry2.entries) or g.has_edge(node, node2):
                             continue
                         if precursors.union(entry.entries).issuperset(entry2.entries):
                             edges_to_add.append((node, node2, "loopback_edge"))
-- 
2.43.0


From f42f6f276c82de9a10b6a4856f4762dfe325d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 18/63] fix: restore the precursors and target of a serialized
 network

They came back as a list or as undecoded dictionaries, the dictionary was modified,
and a network that was not built yet could not be serialized.
---
 src/rxn_network/network/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/network/base.py b/src/rxn_network/network/base.py
index 75f8b4d..9b6d4a8 100644
--- a/src/rxn_network/network/base.py
+++ b/src/rxn_network/network/base.py
@@ -67,7 +67,7 @@ class Network(MSONable, metaclass=ABCMeta):
         d = super().as_dict()
         d["precursors"] = list(self.precursors) if self.precursors else None
         d["target"] = self.target
-        d["graph"] = self.graph.as_dict()
+        d["graph"] = self.graph.as_dict() if self.graph is not None else None
         return d
 
     @classmethod
@@ -75,12 +75,13 @@ class Network(MSONable, metaclass=ABCMeta):
         """Instantiate object from MSONable dict. See monty package for more
         information.
         """
-        precursors = d.pop("precursors", None)
-        target = d.pop("target", None)
+        d = d.copy()
+        precursors = MontyDecoder().process_decoded(d.pop("precursors", None))
+        target = MontyDecoder().process_decoded(d.pop("target", None))
         graph = d.pop("graph", None)
 
         network = super().from_dict(d)
-        network._precursors = precursors  # pylint: disable=protected-access
+        network._precursors = set(precursors) if precursors else None  # pylint: disable=protected-access
         network._target = target  # pylint: disable=protected-access
         network._g = MontyDecoder().process_decoded(  # pylint: disable=protected-access
             graph
-- 
2.43.0


From a7f8287504bcae00bc3a6fa8c719f7d660b7a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 19/63] fix: keep the options of a GibbsEntrySet in its copy

---
 src/rxn_network/entries/entry_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index b452819..40a276b 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -464,7 +464,11 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
 
     def copy(self) -> GibbsEntrySet:
         """Returns a copy of the entry set."""
-        return GibbsEntrySet(entries=self.entries)
+        return GibbsEntrySet(
+            entries=self.entries,
+            calculate_e_above_hulls=self.calculate_e_above_hulls,
+            minimize_obj_size=self.minimize_obj_size,
+        )
 
     def as_dict(self) -> dict:
         """Returns a JSON serializable dict representation of the entry set."""
-- 
2.43.0


From e8c283e451e14984a6d994b5e64fba605bb5b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 20/63] fix: do not add the computed entry when only one
 experimental table has the formula

---
 src/rxn_network/entries/entry_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 40a276b..63cd527 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -426,7 +426,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                 if new_entry:
                     new_entries.append(new_entry)
 
-            if new_entry:
+            if new_entries:
                 experimental_formulas.append(formula)
             else:
                 energy_adjustments = []
-- 
2.43.0


From 5c13b678ef0deca53054c6f22a2a540d2daba9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 21/63] fix: pass the options on when building entries from
 expanded phase diagrams

---
 src/rxn_network/entries/entry_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 63cd527..031c9ed 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -556,7 +556,11 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
             )
             new_entries.update(gibbs_set)
 
-        return cls(list(new_entries))
+        return cls(
+            list(new_entries),
+            calculate_e_above_hulls=calculate_e_above_hulls,
+            minimize_obj_size=minimize_obj_size,
+        )
 
     @cached_property
     def entries_list(self) -> list[ComputedEntry]:
-- 
2.43.0


From e434172e6de30e42ecd52c530a51a1ce5c3fb438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 22/63] fix: do not share data between Gibbs entries and the
 computed entries they are built from

---
 src/rxn_network/entries/entry_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 031c9ed..aae34bd 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -448,7 +448,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                     temperature=temperature,
                     energy_adjustments=energy_adjustments,
                     parameters=entry.parameters,
-                    data=entry.data,
+                    data=entry.data.copy(),
                     entry_id=entry.entry_id,
                 )
 
-- 
2.43.0


From d034947da9e8fe4a76327a616764d94188266ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 23/63] fix: parse reaction strings with large coefficients

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index e311f94..698eda8 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -278,7 +278,7 @@ class BasicReaction(Reaction):
         def get_comp_amt(comp_str):
             return {
                 Composition(m.group(2)): float(m.group(1) or 1)
-                for m in re.finditer(r"([\d\.]*(?:[eE]-?[\d\.]+)?)\s*([A-Z][\w\.\(\)]*)", comp_str)
+                for m in re.finditer(r"([\d\.]*(?:[eE][+-]?[\d\.]+)?)\s*([A-Z][\w\.\(\)]*)", comp_str)
             }
 
         reactant_coeffs = get_comp_amt(rct_str)
-- 
2.43.0


From 7e5c1b2594aa0f8c15b4a2e801cab470c8eda7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 24/63] fix: leave the dictionary passed to
 OpenComputedReaction.from_dict unchanged

---
 src/rxn_network/reactions/open.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 0fe3fea..d95baaf 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -251,8 +251,8 @@ class OpenComputedReaction(ComputedReaction):
     @classmethod
     def from_dict(cls, d) -> OpenComputedReaction:
         """Returns an OpenComputedReaction object from a dictionary representation."""
-        d["chempots"] = {Element(symbol): u for symbol, u in d["chempots"].items()}
-        return super().from_dict(d)
+        chempots = {Element(symbol): u for symbol, u in d["chempots"].items()}
+        return super().from_dict({**d, "chempots": chempots})
 
     def __repr__(self) -> str:
         cp = f"({','.join([f'mu_{e}={m}' for e, m in self.chempots.items()])})"
-- 
2.43.0


From be1f15a4ece550b9d52e642d245dffe89de36289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 25/63] fix: use the aggregation function given to
 ChempotDistanceCalculator

---
 src/rxn_network/costs/calculators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/costs/calculators.py b/src/rxn_network/costs/calculators.py
index bfa70ac..44c5bcd 100644
--- a/src/rxn_network/costs/calculators.py
+++ b/src/rxn_network/costs/calculators.py
@@ -59,6 +59,8 @@ class ChempotDistanceCalculator(Calculator):
             self.mu_func = sum  # type: ignore
         elif isinstance(mu_func, str):
             raise ValueError("Provided mu_func name is not a known function; please provide the function directly.")
+        else:
+            self.mu_func = mu_func  # type: ignore
 
         self._open_elems = set()
         if cpd.entries[0].__class__.__name__ == "GrandPotPDEntry":
-- 
2.43.0


From a7d5946264e655307b5aff73820da4657b4564e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:07 +0000
Subject: [PATCH 26/63] fix: do not write into the dictionary a GibbsEntrySet
 is built from

---
 src/rxn_network/entries/entry_set.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index aae34bd..6fed5b8 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -477,6 +477,11 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
         d["calculate_e_above_hulls"] = self.calculate_e_above_hulls
         return d
 
+    @classmethod
+    def from_dict(cls, d: dict) -> GibbsEntrySet:
+        """Returns an entry set from its dict representation, sharing no data with it."""
+        return super().from_dict(deepcopy(d))
+
     @classmethod
     def from_computed_entries(
         cls,
-- 
2.43.0


From ec2b32fa6caa61ce6f220bf5c39c2d5c8f70ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 27/63] fix: do not add the endpoint reactions twice to a
 serialized InterfaceReactionHull

---
 src/rxn_network/reactions/hull.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 3aef106..664b186 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -62,6 +62,7 @@ class InterfaceReactionHull(MSONable):
             ComputedReaction.balance([self.e2], [self.e2]),
         ]
 
+        reactions = [r for r in reactions if r not in endpoint_reactions]  # e.g., from a serialized hull
         reactions_with_endpoints = reactions + endpoint_reactions
 
         coords = np.array([(self.get_coordinate(r), r.energy_per_atom) for r in reactions])
-- 
2.43.0


From 6501704507e6a4fecb3e81938392e533d0c6cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 28/63] fix: order polymorphs in GibbsEntrySet.entries_list
 consistently

The order of entries with the same composition depended on the insertion order of the
underlying set and changed upon (de)serialization, so that the indices stored in the
entries (build_indices) no longer matched and PathwaySolver picked the wrong polymorph.
---
 src/rxn_network/entries/entry_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 6fed5b8..7d8370d 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -570,7 +570,8 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
     @cached_property
     def entries_list(self) -> list[ComputedEntry]:
         """Returns a list of all entries in the entry set."""
-        return sorted(self.entries, key=lambda e: e.composition)
+        # break ties between polymorphs by ID, so that the same entries are always in the same order
+        return sorted(self.entries, key=lambda e: (e.composition, str(getattr(e, "unique_id", e.entry_id))))
 
     @cached_property
     def min_entries_by_formula(self) -> dict[str, ComputedEntry]:
-- 
2.43.0


From 126c16453f20ea74ec30d2248169a03402c70482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 29/63] fix: return no pathways when there are too few or no
 reactions to combine

---
 src/rxn_network/pathways/solver.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 4fae0d4..587a774 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -198,9 +198,8 @@ class PathwaySolver(Solver):
                     costs.append(c)
 
         clean_r_set = ReactionSet.from_rxns(reactions, filter_duplicates=True)
-        cleaned_reactions, cleaned_costs = zip(
-            *[(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn], strict=False
-        )
+        cleaned = [(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn]
+        cleaned_reactions, cleaned_costs = [r for r, _ in cleaned], [c for _, c in cleaned]
 
         net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
 
@@ -212,6 +211,7 @@ class PathwaySolver(Solver):
         net_coeff_filter = ray.put(net_coeff_filter)
         cleaned_reactions_ref = ray.put(cleaned_reactions)
 
+        max_num_combos = min(max_num_combos, num_rxns)
         comp_matrices = {n: [] for n in range(1, max_num_combos + 1)}  # type: ignore
         comp_matrices_refs_dict = {}  # type: ignore
 
@@ -291,9 +291,8 @@ class PathwaySolver(Solver):
         ):
             c_m_mats.append(c_m_mats_ref)  # noqa: PERF402
 
-        c_mats, m_mats = zip(*c_m_mats, strict=False)
-        c_mats = [mat for mats in c_mats for mat in mats if mat is not None]  # type: ignore
-        m_mats = [mat for mats in m_mats for mat in mats if mat is not None]  # type: ignore
+        c_mats = [mat for mats, _ in c_m_mats for mat in mats if mat is not None]  # type: ignore
+        m_mats = [mat for _, mats in c_m_mats for mat in mats if mat is not None]  # type: ignore
 
         paths = []
         for c_mat, m_mat in zip(c_mats, m_mats, strict=False):
-- 
2.43.0


From 1db9de8d5a3016959f359e64c2e64402ca1cb377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 30/63] fix: solve pathways on a single-CPU ray cluster

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 587a774..5fc6193 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -205,7 +205,7 @@ class PathwaySolver(Solver):
 
         num_rxns = len(cleaned_reactions)
         num_cpus = ray.cluster_resources()["CPU"]
-        batch_size = self.batch_size or num_cpus - 1
+        batch_size = self.batch_size or max(1, num_cpus - 1)
 
         net_coeff_filter = np.argwhere(net_rxn_vector != 0).flatten()
         net_coeff_filter = ray.put(net_coeff_filter)
-- 
2.43.0


From e1b9b67057b1d94ada70c2318c96acffaebf9f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 31/63] fix: use the intermediate reactions found by
 MinimizeGrandPotentialEnumerator in PathwaySolver

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 5fc6193..f7134bc 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -390,7 +390,7 @@ class PathwaySolver(Solver):
                     mu=self.chempot,
                     targets=target_formulas,
                 )
-                rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
+                rxn_set = rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
 
         rxns = list(filter(lambda x: x.energy_per_atom < energy_cutoff, rxn_set))
         rxns = [r for r in rxns if all(e in intermediates for e in r.entries)]
-- 
2.43.0


From 97aec4cefeaef3d28cca6703b46803c52d38f061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:40 +0000
Subject: [PATCH 32/63] fix: flag only pathways with mutually dependent
 reactions as interdependent

A set of phases was looked up in a set of compositions, which is never found.
---
 src/rxn_network/pathways/balanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index bfe64d4..b158a2c 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -100,7 +100,7 @@ class BalancedPathway(BasicPathway):
                     if i == j:
                         continue
                     overlapping_phases = unique_reactants[i] & unique_products[j]
-                    if overlapping_phases and (overlapping_phases not in other_comp):
+                    if overlapping_phases - other_comp:
                         overlap[i] = True
 
             if all(overlap):
-- 
2.43.0


From 35a4ea24f992fa0f13b0570b03a47c169e3862a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:30 +0000
Subject: [PATCH 33/63] fix: recognize precursors given as supercells when
 filtering interdependent pathways

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index f7134bc..fe3cde5 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -326,7 +326,7 @@ class PathwaySolver(Solver):
 
         filtered_paths = []
         if filter_interdependent:
-            precursor_comps = [p.composition for p in precursors]
+            precursor_comps = [p.composition.reduced_composition for p in precursors]
             for p in paths:
                 interdependent = p.contains_interdependent_rxns(precursor_comps)
                 if not interdependent:
-- 
2.43.0


From f4e880458653fa4a1d74f06928f7f1d49dfcdbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:50 +0000
Subject: [PATCH 34/63] fix: use existing attribute in
 BalancedPathway.get_comp_matrix

---
 src/rxn_network/pathways/balanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index b158a2c..60143d0 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -49,7 +49,7 @@ class BalancedPathway(BasicPathway):
         """
         return np.array(
             [
-                [rxn.get_coeff(comp) if comp in rxn.all_comp else 0 for comp in self.compositions]
+                [rxn.get_coeff(comp) if comp in rxn.compositions else 0 for comp in self.compositions]
                 for rxn in self.reactions
             ]
         )
-- 
2.43.0


From ebede7cc1d83ba223b0b402a1899e1f72deebea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:50 +0000
Subject: [PATCH 35/63] fix: compare pathways by all of their reactions,
 coefficients and costs

Pathways were equal when one was a prefix of the other, and balanced ones regardless of
the multiplicities; comparing costs of different lengths raised an error.
---
 src/rxn_network/pathways/balanced.py | 6 ++++--
 src/rxn_network/pathways/basic.py    | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index 60143d0..4e3d998 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -130,12 +130,14 @@ class BalancedPathway(BasicPathway):
 
     def __eq__(self, other) -> bool:
         if super().__eq__(other):
-            return np.allclose(self.costs, other.costs)
+            return np.allclose(self.coefficients, other.coefficients) and (
+                len(self.costs) == len(other.costs) and np.allclose(self.costs, other.costs)
+            )
 
         return False
 
     def __hash__(self):
-        return hash((tuple(self.reactions), tuple(self.coefficients)))
+        return hash(tuple(self.reactions))
 
     def __repr__(self) -> str:
         path_info = ""
diff --git a/src/rxn_network/pathways/basic.py b/src/rxn_network/pathways/basic.py
index 42ecf05..b8af449 100644
--- a/src/rxn_network/pathways/basic.py
+++ b/src/rxn_network/pathways/basic.py
@@ -54,7 +54,9 @@ class BasicPathway(Pathway):
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-            return all(other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=False))
+            return len(other.reactions) == len(self.reactions) and all(
+                other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=True)
+            )
 
         return False
 
-- 
2.43.0


From 0877a58d09e7eda26879de1a6fa8fdd5c8b27328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:50 +0000
Subject: [PATCH 36/63] fix: keep the balanced flag of pathways in a PathwaySet

---
 src/rxn_network/pathways/pathway_set.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/pathways/pathway_set.py b/src/rxn_network/pathways/pathway_set.py
index d4e87d6..551e674 100644
--- a/src/rxn_network/pathways/pathway_set.py
+++ b/src/rxn_network/pathways/pathway_set.py
@@ -34,6 +34,7 @@ class PathwaySet(MSONable):
         indices: np.ndarray | list[list[int]],
         coefficients: np.ndarray | list[list[float] | None],
         costs: np.ndarray | list[list[float]],
+        balanced: list[bool] | None = None,
     ):
         """
         Args:
@@ -43,11 +44,14 @@ class PathwaySet(MSONable):
             coefficients: An array or list of coefficients representing the
             multiplicities (i.e., how much of) each reaction in the pathway.
             costs: An array or list of costs for each pathway.
+            balanced: Optional list of whether each pathway is balanced. Defaults to
+                None (i.e., no pathway is known to be balanced).
         """
         self.reaction_set = reaction_set
         self.indices = indices
         self.coefficients = coefficients
         self.costs = costs
+        self.balanced = balanced or [False] * len(indices)
 
     @cached_property
     def paths(self) -> list[Pathway]:
@@ -64,14 +68,18 @@ class PathwaySet(MSONable):
 
         rxns = list(self.reaction_set.get_rxns())
 
-        for indices, coefficients, costs in zip(
+        for indices, coefficients, costs, balanced in zip(
             self.indices,
             self.coefficients,
-            self.costs, strict=False,
+            self.costs,
+            self.balanced,
+            strict=False,
         ):
             reactions = [rxns[i] for i in indices]
             if coefficients is not None:
-                path = BalancedPathway(reactions=reactions, coefficients=coefficients, costs=costs)
+                path = BalancedPathway(
+                    reactions=reactions, coefficients=coefficients, costs=costs, balanced=balanced
+                )
 
             else:
                 path = BasicPathway(reactions=reactions, costs=costs)
@@ -90,7 +98,7 @@ class PathwaySet(MSONable):
         Args:
             paths: List of Pathway objects
         """
-        indices, coefficients, costs = [], [], []
+        indices, coefficients, costs, balanced = [], [], [], []
 
         reaction_set = cls._get_reaction_set(paths)
         rxns = list(reaction_set.get_rxns())
@@ -99,12 +107,14 @@ class PathwaySet(MSONable):
             indices.append([rxns.index(r) for r in path.reactions])
             coefficients.append(getattr(path, "coefficients", None))
             costs.append(path.costs)
+            balanced.append(getattr(path, "balanced", False))
 
         return cls(
             reaction_set=reaction_set,
             indices=indices,
             coefficients=coefficients,
             costs=costs,
+            balanced=balanced,
         )
 
     @staticmethod
-- 
2.43.0


From 5ad4b4208ecf8014b7e3a4d4af4a45b56bd04d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:18 +0000
Subject: [PATCH 37/63] fix: count one decomposition pathway for a reactant in
 InterfaceReactionHull

The unnormalized secondary competition of a reaction at a pure reactant was multiplied by
the last entry of the list of counts.
---
 src/rxn_network/reactions/hull.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 664b186..ddd129c 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -219,9 +219,9 @@ class InterfaceReactionHull(MSONable):
 
         if not recursive:
             left_energy = self.get_decomposition_energy(0, x)
-            left_num_paths = self.count(len(self.get_coords_in_range(0, x)) - 2)
+            left_num_paths = self.count(max(len(self.get_coords_in_range(0, x)) - 2, 0))
             right_energy = self.get_decomposition_energy(x, 1)
-            right_num_paths = self.count(len(self.get_coords_in_range(x, 1)) - 2)
+            right_num_paths = self.count(max(len(self.get_coords_in_range(x, 1)) - 2, 0))
         else:
             (
                 left_energy,
-- 
2.43.0


From e810054696cc3a4f01019ea1a2ccf8aa68756288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 38/63] fix: account for decomposing reactants in the recursive
 decomposition energy

Visiting the decomposition reaction of a reactant removed the reactant as the reference
for all following vertices, so the result differed from get_decomposition_energy.
---
 src/rxn_network/reactions/hull.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index ddd129c..361d6f3 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -475,20 +475,19 @@ class InterfaceReactionHull(MSONable):
         val = 0
         total = 0
         for c in coords:
-            if c[0] == 0.0 and not np.isclose(c[1], 0.0):
-                use_x_min_ref = False
-            elif c[0] == 1.0 and not np.isclose(c[1], 0.0):
-                use_x_max_ref = False
+            # the reactant itself is not a reference beyond its own decomposition reaction
+            min_ref_right = use_x_min_ref and not (c[0] == 0.0 and not np.isclose(c[1], 0.0))
+            max_ref_left = use_x_max_ref and not (c[0] == 1.0 and not np.isclose(c[1], 0.0))
 
             height = self._calculate_altitude([x_min, y_min], c, [x_max, y_max])  # type: ignore
             (
                 left_decomp,
                 left_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_x_min_ref, max_ref_left)
             (
                 right_decomp,
                 right_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, min_ref_right, use_x_max_ref)
 
             val += height * (left_total * right_total) + left_decomp * right_total + right_decomp * left_total
             total += left_total * right_total
-- 
2.43.0


From d7ffb0217fb62a78cb9a396c8665deaaa662b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 39/63] fix: leave the entries of a chemical potential diagram
 alone in metastable queries

---
 src/rxn_network/thermo/chempot_diagram.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index 784fae5..e9b8a4a 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -201,18 +201,15 @@ class ChemicalPotentialDiagram(ChempotDiagram):
 
         orig_entry = self._entry_set.get_min_entry_by_formula(formula)
         new_entry = self._entry_set.get_stabilized_entry(orig_entry, tol=tol)
-        self._entry_set.add(new_entry)
-        cpd = ChemicalPotentialDiagram(self._entry_set, default_min_limit=-500)
+        cpd = ChemicalPotentialDiagram([*self._entry_set, new_entry], default_min_limit=-500)
 
         try:
             metastable_domain = cpd.domains[formula]
         except KeyError as exc:
             # sometimes if the entry is exactly on the hull it fails, so set force=True
             # and make bigger tolerance
-            self._entry_set.remove(new_entry)
             new_entry = self._entry_set.get_stabilized_entry(orig_entry, tol=1e-2, force=True)
-            self._entry_set.add(new_entry)
-            cpd = ChemicalPotentialDiagram(self._entry_set, default_min_limit=-500)
+            cpd = ChemicalPotentialDiagram([*self._entry_set, new_entry], default_min_limit=-500)
 
             try:
                 metastable_domain = cpd.domains[formula]
@@ -222,7 +219,6 @@ class ChemicalPotentialDiagram(ChempotDiagram):
                 ) from exc
 
         self._metastable_domains[formula] = metastable_domain
-        self._entry_set.remove(new_entry)
 
         return metastable_domain
 
-- 
2.43.0


From f703acb77ce14168f846d546b62e4a90129b18ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 40/63] fix: offset phases above the hull in grand-potential
 chemical potential diagrams

---
 src/rxn_network/thermo/chempot_diagram.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index e9b8a4a..d25fb69 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -118,14 +118,10 @@ class ChemicalPotentialDiagram(ChempotDiagram):
         Returns:
             Offset in chemical potential distance (eV/atom)
         """
-        if entry in self._min_entries and entry.composition.reduced_formula in self.domains:
-            offset = 0.0
-        else:
-            e_above_hull = self._entry_set.get_e_above_hull(entry)
-            hyperplane = self._get_hyperplane(entry)
-            offset = self._get_distance_between_parallel_hyperplanes(hyperplane[:-1], e_above_hull)
-
-        return offset
+        e_above_hull = self._entry_set.get_e_above_hull(entry)
+        hyperplane = self._get_hyperplane(entry)
+
+        return self._get_distance_between_parallel_hyperplanes(hyperplane[:-1], e_above_hull)
 
     @cached_property
     def domains(self) -> dict[str, np.ndarray]:
-- 
2.43.0


From 5f0c3cbf1f44ac2f40a70b36d713ef6e8f7ffbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:06 +0000
Subject: [PATCH 41/63] fix: recognize common gases as separable byproducts

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 698eda8..cbdd0cf 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -216,7 +216,7 @@ class BasicReaction(Reaction):
 
         are_separable = []
         for comp in products:
-            if comp in COMMON_GASES or added_elems.issuperset(comp.elements):
+            if comp.reduced_formula in COMMON_GASES or added_elems.issuperset(comp.elements):
                 are_separable.append(True)
             else:
                 are_separable.append(False)
-- 
2.43.0


From 1e917b21c39351612d4d40dd4a8f896e20619277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 42/63] fix: do not share cached tables of reactions between
 callers

---
 src/rxn_network/reactions/reaction_set.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index bfbaab1..b5d86ea 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -5,7 +5,6 @@ objects which share entries.
 from __future__ import annotations
 
 from collections import OrderedDict
-from functools import lru_cache
 from typing import TYPE_CHECKING, Any
 
 import numpy as np
@@ -187,7 +186,6 @@ class ReactionSet(MSONable):
 
         return rxn_set
 
-    @lru_cache(maxsize=1)  # noqa: B019
     def to_dataframe(
         self,
         cost_function: CostFunction,
-- 
2.43.0


From c2a9a913a56e93b523dcf1555b4856bc9c44579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 43/63] fix: copy the metrics before flipping them in
 get_pareto_front

---
 src/rxn_network/costs/pareto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/costs/pareto.py b/src/rxn_network/costs/pareto.py
index 5dceded..a0c4d7e 100644
--- a/src/rxn_network/costs/pareto.py
+++ b/src/rxn_network/costs/pareto.py
@@ -30,7 +30,7 @@ def get_pareto_front(
     """
     df_original = df.copy()
     df = df_original[list(metrics)]
-    pts = df.to_numpy()
+    pts = df.to_numpy(copy=True)
 
     if maximize:
         pts[:, 1:] = pts[:, 1:] * -1
-- 
2.43.0


From 998f2fcd3d034bd24eb1daddab014e77084d11e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 44/63] fix: keep rows with equal metrics in the Pareto front

---
 src/rxn_network/costs/pareto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/costs/pareto.py b/src/rxn_network/costs/pareto.py
index a0c4d7e..6855e1d 100644
--- a/src/rxn_network/costs/pareto.py
+++ b/src/rxn_network/costs/pareto.py
@@ -56,7 +56,7 @@ def is_pareto_efficient(costs, return_mask=True):
     next_point_index = 0  # Next index in the is_efficient array to search for
     while next_point_index < len(costs):
         nondominated_point_mask = np.any(costs < costs[next_point_index], axis=1)
-        nondominated_point_mask[next_point_index] = True
+        nondominated_point_mask |= np.all(costs == costs[next_point_index], axis=1)  # keep ties
         is_efficient = is_efficient[nondominated_point_mask]  # Remove dominated points
         costs = costs[nondominated_point_mask]
         next_point_index = np.sum(nondominated_point_mask[:next_point_index]) + 1
-- 
2.43.0


From cf556c3a0e40eb4748718dd1c55d5320262b8673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 45/63] fix: separate byproducts of open reactions by their
 elements

---
 src/rxn_network/reactions/basic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index cbdd0cf..ecb42f6 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -208,7 +208,6 @@ class BasicReaction(Reaction):
         if len(identified_targets) == 0:
             raise ValueError(f"Target composition {target} not in reaction {self}")
 
-        added_elems = set(self.elements) - set(target.elements)
         products = set(deepcopy(self.products))
 
         for t in identified_targets:
@@ -216,7 +215,7 @@ class BasicReaction(Reaction):
 
         are_separable = []
         for comp in products:
-            if comp.reduced_formula in COMMON_GASES or added_elems.issuperset(comp.elements):
+            if comp.reduced_formula in COMMON_GASES or set(target.elements).isdisjoint(comp.elements):
                 are_separable.append(True)
             else:
                 are_separable.append(False)
-- 
2.43.0


From 854b1fecb60184b06f88e09a8a33ab0357db0462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:21 +0000
Subject: [PATCH 46/63] fix: give all subsets of an iterator in
 limited_powerset

---
 src/rxn_network/utils/funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/utils/funcs.py b/src/rxn_network/utils/funcs.py
index c5b9e3c..64caba4 100644
--- a/src/rxn_network/utils/funcs.py
+++ b/src/rxn_network/utils/funcs.py
@@ -24,7 +24,8 @@ def limited_powerset(iterable: Iterable, max_size: int) -> Iterable:
     Returns:
         All combination sets up to maximum size
     """
-    return chain.from_iterable([combinations(iterable, num_combos) for num_combos in range(1, max_size + 1)])
+    items = list(iterable)
+    return chain.from_iterable([combinations(items, num_combos) for num_combos in range(1, max_size + 1)])
 
 
 def grouper(iterable: Iterable, n: int, fillvalue: Any = None) -> Iterable:
-- 
2.43.0


From 13422995f0b71feee97ede896c0abc63e65153f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:03 +0000
Subject: [PATCH 47/63] fix: keep competing reactions with the open element in
 CalculateCompetitionMaker

---
 src/rxn_network/jobs/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 093f27a..7775c3b 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -361,6 +361,9 @@ class CalculateCompetitionMaker(Maker):
         logger.info("Removing unnecessary reactions from total reactions to save memory...")
 
         all_target_reactants = {reactant.reduced_formula for r in target_rxns for reactant in r.reactants}
+        if self.open_formula:  # the open element is available to every reaction
+            all_target_reactants.add(self.open_formula)
+
         all_rxns = all_rxns.get_rxns_by_reactants(
             all_target_reactants,
             return_set=True,  # type: ignore
-- 
2.43.0


From 63e5b5b180c9be1b722aa57d49c38f030e21d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:03 +0000
Subject: [PATCH 48/63] fix: do not let chunking change the chemical potential
 distances in CalculateCompetitionMaker

---
 src/rxn_network/jobs/core.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 7775c3b..586240a 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -774,11 +774,8 @@ def _get_chempot_decorated_rxns_by_chunk(rxn_chunk, entries, cpd_kwargs, open_el
         chemsys = rxn.chemical_system
         elems = chemsys.split("-")
 
-        for c, cpd_calculator in cpd_calc_dict.items():
-            if set(c.split("-")).issuperset(elems):
-                cpd_calc = cpd_calculator
-                break
-        else:
+        cpd_calc = cpd_calc_dict.get(chemsys)  # distances in a larger system's diagram are different
+        if cpd_calc is None:
             if open_elem:
                 filtered_entries = entries.get_subset_in_chemsys([*elems, str(open_elem)])
                 filtered_entries = [
-- 
2.43.0


From ad91824ee8d016b08909451ae1f1a7edc5d4bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 49/63] fix: index reactions by the solver's own entries in
 PathwaySolver

---
 src/rxn_network/pathways/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index fe3cde5..b678258 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -201,6 +201,13 @@ class PathwaySolver(Solver):
         cleaned = [(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn]
         cleaned_reactions, cleaned_costs = [r for r, _ in cleaned], [c for _, c in cleaned]
 
+        # entries may have been indexed as part of another entry set since the pathways were found
+        cleaned_reactions, net_rxn = deepcopy(cleaned_reactions), deepcopy(net_rxn)
+        indices = {getattr(e, "unique_id", e.entry_id): idx for idx, e in enumerate(entries)}
+        for rxn in [*cleaned_reactions, net_rxn]:
+            for e in rxn.entries:
+                e.data["idx"] = indices[getattr(e, "unique_id", e.entry_id)]
+
         net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
 
         num_rxns = len(cleaned_reactions)
-- 
2.43.0


From ad8def2067f62c9b5cda48bac3db89ae476485db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:41 +0000
Subject: [PATCH 50/63] fix: balancing does not write into the caller's data
 dictionary

---
 src/rxn_network/reactions/basic.py    | 3 +--
 src/rxn_network/reactions/computed.py | 3 +--
 src/rxn_network/reactions/open.py     | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index ecb42f6..a80139d 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -96,8 +96,7 @@ class BasicReaction(Reaction):
         """
         compositions = list(reactants + products)
         coeffs, lowest_num_errors, num_constraints = cls._balance_coeffs(reactants, products)
-        if not data:
-            data = {}
+        data = dict(data) if data else {}
         data["num_constraints"] = num_constraints
 
         balanced = True
diff --git a/src/rxn_network/reactions/computed.py b/src/rxn_network/reactions/computed.py
index 438bed1..659aeeb 100644
--- a/src/rxn_network/reactions/computed.py
+++ b/src/rxn_network/reactions/computed.py
@@ -67,8 +67,7 @@ class ComputedReaction(BasicReaction):
         product_comps = [e.composition.reduced_composition for e in product_entries]
         coefficients, lowest_num_errors, num_constraints = cls._balance_coeffs(reactant_comps, product_comps)
 
-        if not data:
-            data = {}
+        data = dict(data) if data else {}
         data["num_constraints"] = num_constraints
 
         return cls(
diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index d95baaf..c9c72d9 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -89,8 +89,7 @@ class OpenComputedReaction(ComputedReaction):
         product_comps = [e.composition.reduced_composition for e in product_entries]
         coefficients, lowest_num_errors, num_constraints = cls._balance_coeffs(reactant_comps, product_comps)
 
-        if not data:
-            data = {}
+        data = dict(data) if data else {}
         data["num_constraints"] = num_constraints
 
         entries = list(reactant_entries) + list(product_entries)
-- 
2.43.0


From 4f6f9d9fe6cf6f8173bbed6c61a317b44b048bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:40 +0000
Subject: [PATCH 51/63] fix: equal experimental entries have equal hashes

---
 src/rxn_network/entries/experimental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index e9c7ce5..bc338c3 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -220,6 +220,6 @@ class ExperimentalReferenceEntry(ComputedEntry):
 
     def __hash__(self) -> int:
         data_md5 = hashlib.md5(  # nosec
-            f"{self.__class__.__name__}{self.composition}_{self.temperature}".encode()
+            f"{self.__class__.__name__}{self.composition.reduced_formula}_{self.temperature}".encode()
         ).hexdigest()
         return int(data_md5, 16)
-- 
2.43.0


From c22627e0a6fe57432cb843b1a3241670a6df03dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:40 +0000
Subject: [PATCH 52/63] fix: entries that differ by rounding noise have equal
 hashes

---
 src/rxn_network/entries/gibbs.py        | 9 +--------
 src/rxn_network/entries/interpolated.py | 8 +-------
 2 files changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index 76b9020..712778d 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -359,11 +359,4 @@ class GibbsComputedEntry(ComputedEntry):
         return not self.composition != other.composition
 
     def __hash__(self):
-        return hash(
-            (
-                self.composition,
-                self.energy,
-                self.entry_id,
-                self.temperature,
-            )
-        )
+        return hash(self.entry_id)  # energies and temperatures are compared within a tolerance
diff --git a/src/rxn_network/entries/interpolated.py b/src/rxn_network/entries/interpolated.py
index 3dd3f56..4ec693a 100644
--- a/src/rxn_network/entries/interpolated.py
+++ b/src/rxn_network/entries/interpolated.py
@@ -129,10 +129,4 @@ class InterpolatedEntry(ComputedEntry):
         return not self.composition != other.composition
 
     def __hash__(self):
-        return hash(
-            (
-                self.composition,
-                self.energy,
-                self.entry_id,
-            )
-        )
+        return hash(self.entry_id)  # energies and temperatures are compared within a tolerance
-- 
2.43.0


From 71891f43a66f675ef70bb84e3f73cc618d847ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:01 +0000
Subject: [PATCH 53/63] fix: report missing terminal elements of a chemical
 potential diagram

---
 src/rxn_network/thermo/chempot_diagram.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index d25fb69..01030a3 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -66,11 +66,6 @@ class ChemicalPotentialDiagram(ChempotDiagram):
         self.dim = len(self.elements)
         self._min_entries, self._el_refs = self._get_min_entries_and_el_refs(self.entries)
         self._entry_dict = {e.composition.reduced_formula: e for e in self._min_entries}
-        self._border_hyperplanes = self._get_border_hyperplanes()
-        (
-            self._hyperplanes,
-            self._hyperplane_entries,
-        ) = self._get_hyperplanes_and_entries()
 
         if self.dim < 2:
             raise ValueError("ChemicalPotentialDiagram currently requires phase diagrams with 2 or more elements!")
@@ -78,6 +73,13 @@ class ChemicalPotentialDiagram(ChempotDiagram):
         if len(self.el_refs) != self.dim:
             missing = set(self.elements).difference(self.el_refs.keys())
             raise ValueError(f"There are no entries for the terminal elements: {missing}")
+
+        self._border_hyperplanes = self._get_border_hyperplanes()
+        (
+            self._hyperplanes,
+            self._hyperplane_entries,
+        ) = self._get_hyperplanes_and_entries()
+
         self._hs_int = self._get_halfspace_intersection()
 
         num_hyperplanes = len(self._hyperplanes)
-- 
2.43.0


From 3bc351e09561bcaf16020be19aa1e4c486cbd81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:41 +0000
Subject: [PATCH 54/63] fix: the dimension of a network entry is its number of
 elements

---
 src/rxn_network/network/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/network/entry.py b/src/rxn_network/network/entry.py
index f42924b..6c26b53 100644
--- a/src/rxn_network/network/entry.py
+++ b/src/rxn_network/network/entry.py
@@ -41,7 +41,7 @@ class NetworkEntry(MSONable):
         self._entries = set(entries)
         self._elements = sorted({elem for entry in entries for elem in entry.composition.elements})
         self._chemsys = "-".join([str(e) for e in self.elements])
-        self._dim = len(self.chemsys)
+        self._dim = len(self.elements)
         self._description = description
 
     @property
-- 
2.43.0


From be0ee4e721cc564084defec6226cee5d8cd2fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:41 +0000
Subject: [PATCH 55/63] fix: three-dimensional reaction scatter plots with the
 pinned pymatgen

---
 src/rxn_network/reactions/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/reactions/plotting.py b/src/rxn_network/reactions/plotting.py
index f14c22e..5d2f5eb 100644
--- a/src/rxn_network/reactions/plotting.py
+++ b/src/rxn_network/reactions/plotting.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 import plotly.express as px
@@ -116,9 +117,8 @@ def plot_reaction_scatter(
         )
         fig.update_layout(layout_2d)
     else:
-        layout_3d = plotly_layouts["default_layout_3d"]
-        axis_layout = plotly_layouts["default_3d_axis_layout"].copy()
-        axis_layout["titlefont"]["size"] = 14
+        layout_3d = deepcopy(plotly_layouts["default_layout_3d"])
+        axis_layout = {**plotly_layouts["default_3d_axis_layout"], "title.font": {"size": 14}}
         for t in ["xaxis", "yaxis", "zaxis"]:
             layout_3d["scene"][t] = axis_layout
 
-- 
2.43.0


From cc42be421ffe656b3912895434362163d6ccf2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:41 +0000
Subject: [PATCH 56/63] fix: reaction scatter plots show every row of tables
 with repeated labels

---
 src/rxn_network/reactions/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/plotting.py b/src/rxn_network/reactions/plotting.py
index 5d2f5eb..8b5f35c 100644
--- a/src/rxn_network/reactions/plotting.py
+++ b/src/rxn_network/reactions/plotting.py
@@ -64,7 +64,7 @@ def plot_reaction_scatter(
 
         return label, units
 
-    df = df.copy()
+    df = df.reset_index(drop=True)  # rows are told apart by their labels
     df["rxn"] = df["rxn"].astype(str)
     if "added_elems" in df:
         df["has_added_elems"] = df["added_elems"] != ""
-- 
2.43.0


From 22a711dfc184211ff49905611d7f45fdce135ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:41 +0000
Subject: [PATCH 57/63] fix: filter tables by precursors given as any formula,
 and empty tables

---
 src/rxn_network/reactions/plotting.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/reactions/plotting.py b/src/rxn_network/reactions/plotting.py
index 8b5f35c..d0074d9 100644
--- a/src/rxn_network/reactions/plotting.py
+++ b/src/rxn_network/reactions/plotting.py
@@ -5,10 +5,12 @@ from __future__ import annotations
 from copy import deepcopy
 from typing import TYPE_CHECKING
 
+import numpy as np
 import plotly.express as px
 import plotly.graph_objects as go
 from pymatgen.analysis.chempot_diagram import plotly_layouts
 
+from rxn_network.core import Composition
 from rxn_network.costs.pareto import get_pareto_front
 
 if TYPE_CHECKING:
@@ -173,7 +175,6 @@ def pretty_df_layout(df: DataFrame):
 
 def filter_df_by_precursors(df: DataFrame, precursors: list[str]):
     """Filter a reaction DataFrame by available precursors."""
-    df = df.copy()
-    df["precursors"] = [sorted([r.reduced_formula for r in rxn.reactants]) for rxn in df["rxn"]]
-    selected = df[df["precursors"].apply(lambda x: all(p in precursors for p in x))]
-    return selected.drop(columns=["precursors"])
+    available = {Composition(p).reduced_formula for p in precursors}
+    selected = [all(r.reduced_formula in available for r in rxn.reactants) for rxn in df["rxn"]]
+    return df.loc[np.array(selected, dtype=bool)].copy()
-- 
2.43.0


From bd0b6ee17f2c6ab0ba6b56dbcd442d02cb43b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:00 +0000
Subject: [PATCH 58/63] fix: reload dummy network entries

---
 src/rxn_network/network/entry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rxn_network/network/entry.py b/src/rxn_network/network/entry.py
index 6c26b53..bf787c3 100644
--- a/src/rxn_network/network/entry.py
+++ b/src/rxn_network/network/entry.py
@@ -117,6 +117,12 @@ class DummyEntry(NetworkEntry):
         self._dim = 0
         self._description = NetworkEntryType.Dummy
 
+    @classmethod
+    def from_dict(cls, d: dict) -> DummyEntry:
+        """Load from MSONable dict."""
+        _ = d  # nothing is stored
+        return cls()
+
     def __repr__(self) -> str:
         return "Dummy Node"
 
-- 
2.43.0


From c650a47c8b5910ce46cc9aea0e51d31f76c2f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:30 +0000
Subject: [PATCH 59/63] fix: energy cascade of phases given by unreduced
 formulas

---
 src/rxn_network/pathways/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/plotting.py b/src/rxn_network/pathways/plotting.py
index 91f4a4e..b90d1e0 100644
--- a/src/rxn_network/pathways/plotting.py
+++ b/src/rxn_network/pathways/plotting.py
@@ -90,7 +90,7 @@ class PathwayPlotter(MSONable):
             all_energies[temp]["ground_state"] = ground_state_energy
 
             for f in formulas:
-                comp = Composition(f).reduced_composition
+                comp = Composition(f)  # amounts count this formula unit, reduced or not
                 energy = (
                     pd.get_form_energy_per_atom(gibbs_entries.get_min_entry_by_formula(comp.formula)) * comp.num_atoms
                 )
-- 
2.43.0


From 34fe295513c196531cd3e8726bbf1efbf6b646d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:30 +0000
Subject: [PATCH 60/63] fix: energy cascade of runs which hold or revisit a
 temperature

---
 src/rxn_network/pathways/plotting.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/rxn_network/pathways/plotting.py b/src/rxn_network/pathways/plotting.py
index b90d1e0..666cc34 100644
--- a/src/rxn_network/pathways/plotting.py
+++ b/src/rxn_network/pathways/plotting.py
@@ -57,7 +57,7 @@ class PathwayPlotter(MSONable):
 
         """
         energies = self._get_energies(entries)
-        energies_df = pd.DataFrame(energies).T
+        energies_df = pd.DataFrame(energies, index=self.df.index)
         ground_state_energies = energies_df.pop("ground_state")
 
         gibbs_arr = self.df.values * energies_df.values / self.num_atoms_df.sum(axis=1).values.reshape(-1, 1)
@@ -74,27 +74,27 @@ class PathwayPlotter(MSONable):
         return plot
 
     def _get_energies(self, entries):
-        """Interal method: returns a list of energies for each phase."""
-        all_energies = {}
+        """Interal method: returns a list of energies for each phase, one item per row."""
+        all_energies = []
         formulas = self.df.columns.to_list()
 
-        compositions = self.compositions
-
-        for temp in tqdm(self.df.index):
-            all_energies[temp] = {}
+        for temp, composition in tqdm(self.compositions.items()):  # temperatures may repeat
+            energies = {}
 
             gibbs_entries = GibbsEntrySet.from_computed_entries(entries, temp)
             pd = PhaseDiagram(gibbs_entries)
 
-            ground_state_energy = pd.get_hull_energy(compositions[temp])
-            all_energies[temp]["ground_state"] = ground_state_energy
+            ground_state_energy = pd.get_hull_energy(composition)
+            energies["ground_state"] = ground_state_energy
 
             for f in formulas:
                 comp = Composition(f)  # amounts count this formula unit, reduced or not
                 energy = (
                     pd.get_form_energy_per_atom(gibbs_entries.get_min_entry_by_formula(comp.formula)) * comp.num_atoms
                 )
-                all_energies[temp][f] = energy
+                energies[f] = energy
+
+            all_energies.append(energies)
 
         return all_energies
 
-- 
2.43.0


From ba7eb03638edbcb74086b08e987045fc715e951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:30 +0000
Subject: [PATCH 61/63] fix: stabilize_entries lowers the energies of the
 entries

---
 src/rxn_network/enumerators/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/enumerators/utils.py b/src/rxn_network/enumerators/utils.py
index d5a8451..2c080d9 100644
--- a/src/rxn_network/enumerators/utils.py
+++ b/src/rxn_network/enumerators/utils.py
@@ -154,14 +154,17 @@ def stabilize_entries(pd: PhaseDiagram, entries_to_adjust: Iterable[Entry], tol:
     Returns:
         A list of new entries with energies adjusted to be on the hull
     """
-    indices = [pd.all_entries.index(entry) for entry in entries_to_adjust]
-
     new_entries = []
-    for _, entry in zip(indices, entries_to_adjust, strict=False):
+    for entry in entries_to_adjust:
         e_above_hull = pd.get_e_above_hull(entry)
-        entry_dict = entry.to_dict()
-        entry_dict["energy"] = entry.uncorrected_energy + (e_above_hull * entry.composition.num_atoms - tol)
-        new_entry = ComputedEntry.from_dict(entry_dict)
+        new_entry = ComputedEntry(
+            entry.composition,
+            entry.uncorrected_energy - (e_above_hull * entry.composition.num_atoms + tol),
+            energy_adjustments=entry.energy_adjustments,
+            parameters=entry.parameters,
+            data=entry.data,
+            entry_id=entry.entry_id,
+        )
         new_entries.append(new_entry)
 
     return new_entries
-- 
2.43.0


From a088437800c1d8a354943a44c58567d0c2b992c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:37 +0000
Subject: [PATCH 62/63] fix: a reloaded dummy network entry equals the original

---
 src/rxn_network/network/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/network/entry.py b/src/rxn_network/network/entry.py
index bf787c3..aa1e493 100644
--- a/src/rxn_network/network/entry.py
+++ b/src/rxn_network/network/entry.py
@@ -127,7 +127,7 @@ class DummyEntry(NetworkEntry):
         return "Dummy Node"
 
     def __eq__(self, other) -> bool:
-        return self is other
+        return isinstance(other, DummyEntry)
 
     def __hash__(self):
         return hash("Dummy")
-- 
2.43.0


From aeec425839595aa22a9c8f13d9ce801d1ae36ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:58 +0000
Subject: [PATCH 63/63] fix: rows with a missing metric do not empty the Pareto
 front

---
 src/rxn_network/costs/pareto.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/costs/pareto.py b/src/rxn_network/costs/pareto.py
index 6855e1d..9c822af 100644
--- a/src/rxn_network/costs/pareto.py
+++ b/src/rxn_network/costs/pareto.py
@@ -55,8 +55,9 @@ def is_pareto_efficient(costs, return_mask=True):
     n_points = costs.shape[0]
     next_point_index = 0  # Next index in the is_efficient array to search for
     while next_point_index < len(costs):
-        nondominated_point_mask = np.any(costs < costs[next_point_index], axis=1)
-        nondominated_point_mask |= np.all(costs == costs[next_point_index], axis=1)  # keep ties
+        point = costs[next_point_index]
+        dominated_point_mask = np.all(costs >= point, axis=1) & np.any(costs > point, axis=1)
+        nondominated_point_mask = ~dominated_point_mask  # keeps ties and points with missing (NaN) costs
         is_efficient = is_efficient[nondominated_point_mask]  # Remove dominated points
         costs = costs[nondominated_point_mask]
         next_point_index = np.sum(nondominated_point_mask[:next_point_index]) + 1
-- 
2.43.0

