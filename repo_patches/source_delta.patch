From c5833c8a63406bf7d69de293e1a0081b93ff8578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:02 +0000
Subject: [PATCH 01/41] fix: apply hops with the endpoint sites' own
 mobile/vacancy state codes

---
 kmcpy/simulator/state.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/kmcpy/simulator/state.py b/kmcpy/simulator/state.py
index cb1f52f..edc86fb 100644
--- a/kmcpy/simulator/state.py
+++ b/kmcpy/simulator/state.py
@@ -12,6 +12,7 @@ from monty.json import MSONable
 from monty.serialization import dumpfn, loadfn
 
 from ..event.base import Event
+from ..event.hop import INVALID_STATE, event_direction
 
 logger = logging.getLogger(__name__)
 
@@ -147,13 +148,33 @@ class State(MSONable):
     def apply_event(self, event: Event, dt: float) -> None:
         """Apply one event transition and advance simulation counters."""
         from_site, to_site = event.mobile_ion_indices
-        self.occupations[from_site], self.occupations[to_site] = (
-            self.occupations[to_site],
-            self.occupations[from_site],
-        )
+        endpoint_states = self._endpoint_states_after(event)
+        if endpoint_states is None:
+            endpoint_states = (
+                self.occupations[to_site],
+                self.occupations[from_site],
+            )
+        self.occupations[from_site], self.occupations[to_site] = endpoint_states
         self.time += dt
         self.step += 1
 
+    def _endpoint_states_after(self, event: Event) -> tuple[int, int] | None:
+        """Return post-hop endpoint states from the event's site-specific codes.
+
+        Mobile-ion and vacancy states may have different indices on the two
+        endpoint sites, so exchanging the raw indices is only valid for events
+        without precomputed ``hop_state_codes``.
+        """
+        codes = getattr(event, "hop_state_codes", None)
+        if codes is None or INVALID_STATE in codes:
+            return None
+        direction = event_direction(self.occupations, event)
+        if direction == 1:
+            return codes[2], codes[3]
+        if direction == -1:
+            return codes[0], codes[1]
+        return None
+
     def copy(self) -> "State":
         """Return a deep copy of mutable state."""
         return State(
-- 
2.43.0


From 9fa10129f36847b1cd1a45f2f0bd23a263cc9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:53 +0000
Subject: [PATCH 02/41] fix: use the true minimum image for hop displacements
 in skewed cells

---
 kmcpy/simulator/tracker.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 763ab09..6a0371a 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -3,6 +3,7 @@
 
 from __future__ import annotations
 
+import itertools
 import logging
 from typing import TYPE_CHECKING, Any, Callable, Optional
 
@@ -32,6 +33,11 @@ if TYPE_CHECKING:
 
 logger = logging.getLogger(__name__)
 
+# Periodic images around the wrapped hop vector, home image first.
+_NEIGHBOR_IMAGES = np.array(
+    sorted(itertools.product((-1, 0, 1), repeat=3), key=lambda image: image != (0, 0, 0))
+)
+
 RESULT_FIELDS = (
     "time",
     "jump_diffusivity",
@@ -478,7 +484,15 @@ class Tracker:
             self.frac_coords[to_site] - self.frac_coords[from_site]
         )
         displacement_frac -= np.round(displacement_frac).astype(int)
-        return np.array(self.latt.get_cartesian_coords(displacement_frac))
+        # Wrapping fractional coordinates alone is not the minimum image in
+        # skewed cells, so compare the neighboring images as well.
+        candidates = np.array(
+            self.latt.get_cartesian_coords(displacement_frac + _NEIGHBOR_IMAGES)
+        )
+        lengths = np.linalg.norm(candidates, axis=1)
+        if lengths.min() < lengths[0] - 1e-8:
+            return candidates[int(np.argmin(lengths))]
+        return candidates[0]
 
     def update_current_pass(self, current_pass: int) -> None:
         """Update current pass index used in logging/output."""
-- 
2.43.0


From 3d5dc60b7f866ea3ae0f633d33ed9714184ceb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:18 +0000
Subject: [PATCH 03/41] fix: generate missing or outdated event dependencies
 before running kMC

---
 kmcpy/simulator/kmc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 99fc643..7b7f696 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -91,6 +91,13 @@ class KMC:
         
         # Store the event library (already loaded)
         self.event_lib = event_lib
+        # Without a complete dependency matrix no rate would be refreshed
+        # after an accepted event.
+        if len(event_lib) and (
+            not event_lib.has_event_dependencies()
+            or len(event_lib.event_dependencies) != len(event_lib)
+        ):
+            event_lib.generate_event_dependencies()
 
         # Store and apply precomputed hop-state metadata for fast direction checks.
         self.hop_state_lookup = hop_state_lookup
-- 
2.43.0


From aecdc36f450964f031ec3d53231a700e7de12ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:18 +0000
Subject: [PATCH 04/41] fix: refresh all rates when local-barrier rules read
 sites outside the event

---
 kmcpy/models/local_barrier_model.py | 8 ++++++++
 kmcpy/simulator/kmc.py              | 8 ++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index 58e1760..71e557d 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -863,6 +863,14 @@ class LocalBarrierModel(BaseModel):
             return tuple(range(len(occupations)))
         raise ValueError(f"Unsupported sites selector '{sites}'")
 
+    @property
+    def uses_nonlocal_sites(self) -> bool:
+        """Return whether some rule reads sites that events do not list."""
+        return any(
+            rule.get("sites") == "all" or isinstance(rule.get("sites"), tuple)
+            for rule in self.rules
+        )
+
     def _occupation_pattern(
         self, sites: tuple[int, ...], occupations: list[int]
     ) -> tuple[int, ...]:
diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 7b7f696..0310b1c 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -449,8 +449,12 @@ class KMC:
         # Find event index automatically from event library
         event_index = self.event_lib.events.index(event)
         
-        # Use EventLib to get dependent events
-        events_to_be_updated = self.event_lib.get_dependent_events(event_index)
+        # Use EventLib to get dependent events. Models whose rates look beyond
+        # the sites listed by an event need every rate refreshed.
+        if getattr(self.model, "uses_nonlocal_sites", False):
+            events_to_be_updated = range(len(self.event_lib.events))
+        else:
+            events_to_be_updated = self.event_lib.get_dependent_events(event_index)
         
         # Update probabilities for dependent events using configured model
         for e_index in events_to_be_updated:
-- 
2.43.0


From dd0915b21d51640752ec91a78e0f0f991e88ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:01 +0000
Subject: [PATCH 05/41] fix: use the time since tracking started for
 diffusivities

---
 kmcpy/simulator/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 6a0371a..730a797 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -99,6 +99,8 @@ class Tracker:
         self.config = config
         self.structure = structure
         self.state = initial_state
+        # Displacements start here, so rates of displacement must as well.
+        self._start_time = float(initial_state.time)
         self.hop_state_lookup = hop_state_lookup
 
         self._initialize_mobile_ion_tracking(initial_state.occupations)
@@ -324,7 +326,7 @@ class Tracker:
         return compute_transport_properties(
             self.displacement,
             self.hop_counter,
-            sim_time=float(self.time),
+            sim_time=float(self.time) - self._start_time,
             dimension=self.dimension,
             n_mobile_ion_specie=self.n_mobile_ion_specie,
             elementary_hop_distance=self.elem_hop_distance,
-- 
2.43.0


From 165952f6d5dc55dd3322f60a45a3ef567d52f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:01 +0000
Subject: [PATCH 06/41] fix: honour detach calls made by property callbacks

---
 kmcpy/simulator/tracker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 730a797..7f528d7 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -388,6 +388,9 @@ class Tracker:
         self._sample_transport_summary(step=step, sim_time=sim_time)
 
         for spec in list(self._properties.values()):
+            # An earlier callback of this sampling point may have detached it.
+            if self._properties.get(spec.name) is not spec:
+                continue
             if not spec.enabled:
                 continue
 
@@ -415,7 +418,7 @@ class Tracker:
                 spec.last_trigger_time = sim_time
                 continue
 
-            if spec.store:
+            if spec.store and self._properties.get(spec.name) is spec:
                 append_record(
                     records=self._property_records[spec.name],
                     spec=spec,
-- 
2.43.0


From bfca1d03bc46b1085c4e82eb259c9d68383530ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:01 +0000
Subject: [PATCH 07/41] fix: pass the production event index to property
 callbacks

---
 kmcpy/simulator/kmc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 0310b1c..110cf56 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -544,6 +544,10 @@ class KMC:
         
         logger.info("Tracker summaries are reported as dynamic property tables per pass.")
 
+        # Callbacks receive the production event index, without equilibration
+        # or earlier runs of the same state.
+        first_production_step = int(self.simulation_state.step)
+
         # Main KMC loop
         for current_pass in np.arange(config.kmc_passes):
             for _ in np.arange(pass_length):
@@ -553,7 +557,7 @@ class KMC:
                 # KMC is the single owner of mutable simulation state updates.
                 self.update(event, dt=dt)
                 tracker.sample_properties(
-                    step=int(self.simulation_state.step),
+                    step=int(self.simulation_state.step) - first_production_step,
                     sim_time=float(self.simulation_state.time),
                 )
             
-- 
2.43.0


From fa8c1461eec99f725291c6ea2d1ff5ce16e4980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:01 +0000
Subject: [PATCH 08/41] fix: leave finished results alone when callbacks are
 detached later

---
 kmcpy/simulator/kmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 110cf56..8c2aa61 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -565,6 +565,8 @@ class KMC:
             tracker.show_current_info()
 
         tracker.write_results(label=label)
+        # Later attach/detach calls configure the next run, not this result.
+        self._active_tracker = None
         return tracker
 
 @njit
-- 
2.43.0


From 39146d2bf70f6512190b4aa508836b1266fa678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:34 +0000
Subject: [PATCH 09/41] fix: map site-energy changes with the endpoint sites'
 own state codes

---
 kmcpy/models/site_energy.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 59a27f6..9da4e2e 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -14,6 +14,7 @@ from typing import Any, Optional
 import numpy as np
 from monty.serialization import loadfn
 
+from kmcpy.event.hop import INVALID_STATE, event_direction
 from kmcpy.models.base import BaseModel, MODEL_FILETYPE, require_model_type
 from kmcpy.structure.active_site_order import ActiveSiteOrder
 
@@ -310,10 +311,11 @@ class SiteEnergyModel(BaseModel):
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        from_other, to_other = _opposite_endpoint_states(event, occupations)
         return self._mapped_changes(
             (
-                (from_site, from_state, to_state),
-                (to_site, to_state, from_state),
+                (from_site, from_state, from_other),
+                (to_site, to_state, to_other),
             )
         )
 
@@ -321,10 +323,11 @@ class SiteEnergyModel(BaseModel):
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        from_other, to_other = _opposite_endpoint_states(event, occupations)
         return self._mapped_changes(
             (
-                (from_site, to_state, from_state),
-                (to_site, from_state, to_state),
+                (from_site, from_other, from_state),
+                (to_site, to_other, to_state),
             )
         )
 
@@ -515,6 +518,24 @@ def resolve_callable_reference(callable_ref: str):
     return obj
 
 
+def _opposite_endpoint_states(event, occupations) -> tuple[int, int]:
+    """Return the endpoint states on the other side of the event.
+
+    Mobile-ion and vacancy states may have different indices on the two
+    endpoint sites, so raw indices are exchanged only for events without
+    precomputed ``hop_state_codes``.
+    """
+    from_site, to_site = (int(site) for site in event.mobile_ion_indices)
+    codes = getattr(event, "hop_state_codes", None)
+    if codes is not None and INVALID_STATE not in codes:
+        direction = event_direction(occupations, event)
+        if direction == 1:
+            return int(codes[2]), int(codes[3])
+        if direction == -1:
+            return int(codes[0]), int(codes[1])
+    return int(occupations[to_site]), int(occupations[from_site])
+
+
 def _call_with_supported_keywords(
     func,
     kwargs: dict[str, Any],
-- 
2.43.0


From 1fdabcf70e9f308675e3c5dcda8132eb1cb65f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:34 +0000
Subject: [PATCH 10/41] fix: call apply_fn with the documented argument subset

---
 kmcpy/models/site_energy.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 9da4e2e..51cb661 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -395,13 +395,17 @@ class SiteEnergyModel(BaseModel):
 
         apply_fn = self._resolve_apply_fn()
         if apply_fn is not None:
-            apply_fn(
-                runtime=self._resolve_runtime(),
-                external_occupation=self.external_occupation,
-                changes=changes,
-                event=event,
-                simulation_state=simulation_state,
-                **self.apply_kwargs,
+            _call_with_supported_keywords(
+                apply_fn,
+                {
+                    "runtime": self._resolve_runtime(),
+                    "external_occupation": self.external_occupation,
+                    "changes": changes,
+                    "event": event,
+                    "simulation_state": simulation_state,
+                    **self.apply_kwargs,
+                },
+                user_kwarg_names=set(self.apply_kwargs),
             )
 
         for change in changes:
@@ -566,7 +570,7 @@ def _call_with_supported_keywords(
     unused_user_kwargs = sorted(user_kwarg_names - accepted)
     if unused_user_kwargs:
         raise TypeError(
-            "SiteEnergyModel compute_kwargs contains keys not accepted by "
+            "SiteEnergyModel callable kwargs contain keys not accepted by "
             f"{func}: {unused_user_kwargs}"
         )
     return func(**{key: value for key, value in kwargs.items() if key in accepted})
-- 
2.43.0


From af56d0db5ebb058888badcdf3408a5c884a0db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:07 +0000
Subject: [PATCH 11/41] fix: keep mapped external occupation values from being
 truncated

---
 kmcpy/models/site_energy.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 51cb661..c02da51 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -272,7 +272,7 @@ class SiteEnergyModel(BaseModel):
         ]
         dtype = _resolve_external_dtype(
             self.external_dtype,
-            mapped_values=mapped_values,
+            mapped_values=mapped_values + self._reachable_external_values(),
             fill_value=self.external_fill_value,
             initial_occupation=self.initial_occupation,
         )
@@ -294,6 +294,12 @@ class SiteEnergyModel(BaseModel):
             external[int(self._site_lookup[kmcpy_site])] = mapped_value
         return external
 
+    def _reachable_external_values(self) -> list[Any]:
+        """Return every external value a later event may store in the cache."""
+        mappings = [self.state_mapping or {}]
+        mappings.extend((self.state_mapping_by_site or {}).values())
+        return [value for mapping in mappings for value in mapping.values()]
+
     def _external_site(self, kmcpy_site: int) -> int:
         if self._site_lookup is None:
             raise RuntimeError("SiteEnergyModel has not been initialized")
@@ -823,13 +829,24 @@ def _resolve_external_dtype(
         return np.dtype(external_dtype)
     values = list(mapped_values)
     if initial_occupation is not None:
-        return initial_occupation.dtype
-    if values and all(isinstance(value, (int, np.integer)) for value in values):
+        # Keep the dtype of the given occupation unless storing a mapped value
+        # in it would truncate that value.
+        kind = initial_occupation.dtype.kind
+        if kind in "iu" and all(
+            isinstance(value, (int, np.integer)) for value in values
+        ):
+            return initial_occupation.dtype
+        if kind == "f" and all(
+            isinstance(value, (int, float, np.number)) for value in values
+        ):
+            return initial_occupation.dtype
+        values.extend(initial_occupation.tolist())
+    else:
+        values.append(fill_value)
+    if all(isinstance(value, (int, np.integer)) for value in values):
         return np.int64
-    if values and all(isinstance(value, (int, float, np.number)) for value in values):
+    if all(isinstance(value, (int, float, np.number)) for value in values):
         return float
-    if isinstance(fill_value, (int, np.integer)) and not values:
-        return np.int64
     return object
 
 
-- 
2.43.0


From 5031aba4cb14e01f6d267652eac0b7888d14fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:10 +0000
Subject: [PATCH 12/41] fix: check the site-energy state mappings for both
 directions of every event

---
 kmcpy/models/site_energy.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index c02da51..4f56049 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -365,13 +365,26 @@ class SiteEnergyModel(BaseModel):
             return
         for event_index, event in enumerate(events):
             try:
-                self._changes_from_pre_state(event, occupations)
+                self._check_endpoint_mappings(event, occupations)
             except (IndexError, KeyError, ValueError) as exc:
                 raise ValueError(
                     "SiteEnergyModel occupation mapping is incompatible "
                     f"with event {event_index}"
                 ) from exc
 
+    def _check_endpoint_mappings(self, event, occupations: Sequence[int]) -> None:
+        codes = getattr(event, "hop_state_codes", None)
+        if codes is None or INVALID_STATE in codes:
+            self._changes_from_pre_state(event, occupations)
+            return
+        # The event may become possible in either direction during the run.
+        from_site, to_site = (int(site) for site in event.mobile_ion_indices)
+        for site, state in zip(
+            (from_site, to_site, from_site, to_site), codes, strict=True
+        ):
+            self._external_site(site)
+            self._external_value(site, int(state))
+
     def compute(self, event, simulation_state) -> float:
         """Return ``E_after_hop - E_before_hop`` in meV."""
         self._ensure_initialized(simulation_state)
-- 
2.43.0


From 3af2f2ab62c8eaaf17bd67d837f0dd92f999a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:13 +0000
Subject: [PATCH 13/41] fix: refuse site mappings that merge two kMCpy sites

---
 kmcpy/models/site_energy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 4f56049..67e83e7 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -729,6 +729,8 @@ def _build_site_lookup(
 
     if np.any(lookup < 0):
         raise ValueError("External site indices must be nonnegative")
+    if len(np.unique(lookup)) != len(lookup):
+        raise ValueError("site_mapping maps two kMCpy sites to one external site")
     upper_bound = external_size
     if initial_occupation is not None:
         upper_bound = len(initial_occupation)
-- 
2.43.0


From a2d24e977fbe487e0d3b58b15bd617ff83f9621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:44 +0000
Subject: [PATCH 14/41] fix: refresh all rates when an external site-energy
 model is used

---
 kmcpy/models/composite_lce_model.py | 5 +++++
 kmcpy/models/site_energy.py         | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/kmcpy/models/composite_lce_model.py b/kmcpy/models/composite_lce_model.py
index 0f17326..9f3b05d 100644
--- a/kmcpy/models/composite_lce_model.py
+++ b/kmcpy/models/composite_lce_model.py
@@ -124,6 +124,11 @@ class CompositeLCEModel(BaseModel):
             "CompositeLCEModel(site_model=..., kra_model=...)."
         )
 
+    @property
+    def uses_nonlocal_sites(self) -> bool:
+        """Return whether rates depend on sites that events do not list."""
+        return bool(getattr(self.site_model, "uses_nonlocal_sites", False))
+
     def _compute_site_energy_difference(
         self,
         event: Event,
diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 67e83e7..b842ca3 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -94,6 +94,10 @@ class SiteEnergyModel(BaseModel):
     MODEL_TYPE = "site_energy"
     PAYLOAD_KEY = "site_energy"
 
+    # The callable sees the whole occupation, so an accepted event may change
+    # the energy difference of any other event.
+    uses_nonlocal_sites = True
+
     def __init__(
         self,
         compute_fn=None,
-- 
2.43.0


From 320d6d4d808796df9da98adfcab4893566e820fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:00 +0000
Subject: [PATCH 15/41] fix: label full supercell sites with their compact
 active index

---
 kmcpy/structure/active_site_order.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 5dec1a0..3a9f30b 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -361,9 +361,14 @@ def _make_supercell_with_properties(
         ORIGINAL_SITE_PROPERTY, list(range(len(supercell)))
     )
     active_indices = []
+    active_count = 0
     for site in supercell:
         primitive_index = int(site.properties[PRIMITIVE_SITE_PROPERTY])
-        active_indices.append(primitive_active_lookup.get(primitive_index, -1))
+        if primitive_index in primitive_active_lookup:
+            active_indices.append(active_count)
+            active_count += 1
+        else:
+            active_indices.append(-1)
     supercell.add_site_property(ACTIVE_SITE_PROPERTY, active_indices)
     return supercell
 
-- 
2.43.0


From 231a0c8a162178114114c5fd683917f449304a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:09 +0000
Subject: [PATCH 16/41] fix: rebuild the site-to-events mapping when loading
 event files

---
 kmcpy/event/base.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/kmcpy/event/base.py b/kmcpy/event/base.py
index a93822e..7c0fd9c 100644
--- a/kmcpy/event/base.py
+++ b/kmcpy/event/base.py
@@ -317,10 +317,9 @@ class EventLib(ABC):
         event_lib.index_metadata = data["index_metadata"]
         active_site_order = ActiveSiteOrder.from_dict(event_lib.index_metadata)
 
-        # Load events
+        # Load events; this also rebuilds the site to events mapping
         for event_dict in data["events"]:
-            event = Event.from_dict(event_dict)
-            event_lib.events.append(event)
+            event_lib.add_event(Event.from_dict(event_dict))
         event_lib._validate_event_indices(active_site_order)
 
         # Load event dependencies if present and convert back to numba Lists
@@ -332,10 +331,6 @@ class EventLib(ABC):
                     numba_row.append(int(idx))
                 event_lib.event_dependencies.append(numba_row)
 
-        # Load site to events mapping (convert string keys back to integers)
-        site_to_events_data = data.get("site_to_events", {})
-        event_lib.site_to_events = {int(k): v for k, v in site_to_events_data.items()}
-
         return event_lib
 
 
-- 
2.43.0


From 0b83f2e965ce025b97a721a4e24985361ef8fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:14 +0000
Subject: [PATCH 17/41] fix: list each hop once when both endpoints are initial
 and target sites

---
 kmcpy/event/generators.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/kmcpy/event/generators.py b/kmcpy/event/generators.py
index 0c93d2c..7ebe6e5 100644
--- a/kmcpy/event/generators.py
+++ b/kmcpy/event/generators.py
@@ -475,8 +475,14 @@ class EventGenerator:
         )
         indices_dict_from_identifier = build_site_index(supercell, skip_check=False)
 
+        initial_site_indices = set(supercell_migrating_ion_indices)
         events: List[Event] = []
         for supercell_migrating_ion_index in supercell_migrating_ion_indices:
+            is_also_target = self._is_valid_target_site(
+                supercell[supercell_migrating_ion_index],
+                site_selection_kind,
+                mobile_ion_identifiers[1],
+            )
             supercell_tuple = supercell[supercell_migrating_ion_index].properties[
                 "supercell"
             ]
@@ -504,6 +510,15 @@ class EventGenerator:
 
             local_env_indices = tuple(local_env_info)
             for target_site_index in local_env_info:
+                # An event covers both hop directions: a hop that is also found
+                # from its other endpoint is listed once, and a site's own
+                # periodic image is no hop.
+                if (
+                    is_also_target
+                    and target_site_index in initial_site_indices
+                    and target_site_index <= supercell_migrating_ion_index
+                ):
+                    continue
                 if self._is_valid_target_site(
                     supercell[target_site_index],
                     site_selection_kind,
-- 
2.43.0


From 6b17da96de98550b4cb9bcaafa350cf20e2af9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:05 +0000
Subject: [PATCH 18/41] fix: infer mobile species from every accepted vacancy
 label

---
 kmcpy/event/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/event/generators.py b/kmcpy/event/generators.py
index 7ebe6e5..e5582c7 100644
--- a/kmcpy/event/generators.py
+++ b/kmcpy/event/generators.py
@@ -85,7 +85,7 @@ class EventGenerator:
             allowed_tokens = {
                 token.upper() for token in cls._mapping_values(allowed_species)
             }
-            if "X" in allowed_tokens or "VACANCY" in allowed_tokens:
+            if allowed_tokens & {"X", "VA", "VACANCY"}:
                 mobile_species.append(str(species))
         if not mobile_species:
             raise ValueError(
-- 
2.43.0


From 85244f6422db56f32d99a094e3e6e4cd5c36c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:04 +0000
Subject: [PATCH 19/41] fix: count only sites of the mobile species itself in a
 pass

---
 kmcpy/simulator/kmc.py     | 2 +-
 kmcpy/simulator/tracker.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 8c2aa61..c82f24d 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -512,7 +512,7 @@ class KMC:
         pass_length = len([
             el.symbol
             for el in self.structure.species
-            if config.mobile_ion_specie in el.symbol
+            if el.symbol == config.mobile_ion_specie
         ])
         
         logger.info("============================================================")
diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 7f528d7..84b365a 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -135,7 +135,7 @@ class Tracker:
         """Initialize mobile ion tracking arrays."""
         if self.hop_state_lookup is None:
             self.n_mobile_ion_specie_site = len(
-                [el.symbol for el in self.structure.species if self.mobile_ion_specie in el.symbol]
+                [el.symbol for el in self.structure.species if el.symbol == self.mobile_ion_specie]
             )
             initial_active_occ = np.array(initial_occ[0 : self.n_mobile_ion_specie_site])
             mobile_state_mask = initial_active_occ == 0
-- 
2.43.0


From 50e6f99d978125bc18b287eaa6f9d36c3dcc421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:01 +0000
Subject: [PATCH 20/41] fix: configurations hold own copies of mutable fields
 and a tuple shape

---
 kmcpy/simulator/config.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/kmcpy/simulator/config.py b/kmcpy/simulator/config.py
index d9be365..5f20cda 100644
--- a/kmcpy/simulator/config.py
+++ b/kmcpy/simulator/config.py
@@ -13,6 +13,7 @@ Monte Carlo simulations. It handles both system fields (what you're simulating)
 and runtime fields (how you run the simulation).
 """
 
+from copy import deepcopy
 from typing import Any, Optional
 from dataclasses import dataclass, field
 from pathlib import Path
@@ -176,6 +177,14 @@ class SystemConfig:
         
         if len(self.supercell_shape) != 3:
             raise ValueError("Supercell shape must have 3 components")
+
+        # Hold own copies, so a configuration never follows later changes to
+        # the caller's objects and equals itself after a file round trip.
+        object.__setattr__(self, "supercell_shape", tuple(self.supercell_shape))
+        object.__setattr__(self, "site_mapping", deepcopy(self.site_mapping))
+        object.__setattr__(
+            self, "initial_occupations", deepcopy(self.initial_occupations)
+        )
         
         # Temporarily disabled for testing
         # if not Path(self.structure_file).exists():
@@ -286,6 +295,15 @@ class RuntimeConfig:
                     raise TypeError(
                         f"property callback '{bool_key}' must be a boolean when provided"
                     )
+
+        # Hold own copies, so a configuration never follows later changes to
+        # the caller's objects.
+        object.__setattr__(
+            self, "builtin_property_enabled", deepcopy(self.builtin_property_enabled)
+        )
+        object.__setattr__(
+            self, "property_callbacks", deepcopy(self.property_callbacks)
+        )
     
     def as_dict(self) -> dict[str, Any]:
         """Convert to a JSON/YAML-serializable dictionary."""
-- 
2.43.0


From 3b51afdff85673b76bf15ce1b37681080c9ee011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:26 +0000
Subject: [PATCH 21/41] fix: keep the local site order in saved fitted
 parameters

---
 kmcpy/models/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 496dbc9..7e6ed93 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -49,6 +49,8 @@ class LCEModelParameters(MSONable):
             data["orbit_fingerprints"] = self.orbit_fingerprints
         if self.local_environment_hash is not None:
             data["local_environment_hash"] = self.local_environment_hash
+        if self.local_site_order is not None:
+            data["local_site_order"] = self.local_site_order
         return data
 
     @classmethod
-- 
2.43.0


From 2baa77aaac692c3287dd18430026e31880fe7b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:35 +0000
Subject: [PATCH 22/41] fix: write and read fitted parameters as YAML

---
 kmcpy/models/parameters.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 7e6ed93..aa3d847 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -3,10 +3,11 @@
 from __future__ import annotations
 
 from dataclasses import dataclass, field
+import json
 from pathlib import Path
 from typing import Any
 
-from monty.json import MSONable
+from monty.json import MontyEncoder, MSONable
 from monty.serialization import dumpfn, loadfn
 
 
@@ -85,7 +86,7 @@ class LCEModelParameters(MSONable):
         filename = Path(filename)
         if filename.suffix == ".h5":
             return cls.from_dict(_read_hdf5_parameter_group(filename))
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_text_file(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted parameters to JSON/YAML or HDF5."""
@@ -93,7 +94,7 @@ class LCEModelParameters(MSONable):
         if filename.suffix == ".h5":
             _write_hdf5_parameter_group(filename, self.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_text_file(self.as_dict(), filename, indent)
 
     def __str__(self) -> str:
         values = ", ".join(
@@ -151,7 +152,7 @@ class LCEModelParamHistory(MSONable):
                 for key in sorted(h5file.keys()):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_text_file(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted-parameter history to JSON/YAML or HDF5."""
@@ -166,7 +167,25 @@ class LCEModelParamHistory(MSONable):
                     group = h5file.create_group(f"parameter_set_{index}")
                     _write_hdf5_group(group, parameters.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_text_file(self.as_dict(), filename, indent)
+
+
+def _is_yaml_file(filename: Path) -> bool:
+    return any(suffix in filename.name.lower() for suffix in (".yaml", ".yml"))
+
+
+def _load_text_file(filename: Path) -> Any:
+    if _is_yaml_file(filename):
+        # Plain Python values instead of ruamel's round-trip types.
+        return json.loads(json.dumps(loadfn(filename)))
+    return loadfn(filename, cls=None)
+
+
+def _dump_text_file(data: dict[str, Any], filename: Path, indent: int) -> None:
+    if _is_yaml_file(filename):
+        dumpfn(json.loads(json.dumps(data, cls=MontyEncoder)), filename)
+        return
+    dumpfn(data, filename, indent=indent)
 
 
 def _read_hdf5_parameter_group(filename: Path) -> dict[str, Any]:
-- 
2.43.0


From d604a9d015052dae02c263acf9c55d174d899001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:31 +0000
Subject: [PATCH 23/41] fix: keep allowed species with their sites in lattice
 supercells

---
 kmcpy/structure/lattice_structure.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index a5f0c3b..0c7be85 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -379,14 +379,16 @@ class LatticeStructure(ABC):
     
     def make_supercell(self, sc_matrix: np.ndarray):
         '''Create a supercell of the template structure'''
+        primitive_site_count = len(self.template_structure)
         self.template_structure.make_supercell(sc_matrix)
-        # Update allowed_species accordingly
-        original_allowed_species = self.allowed_species.copy()
-        self.allowed_species = []
-        for i in range(sc_matrix[0,0]):
-            for j in range(sc_matrix[1,1]):
-                for k in range(sc_matrix[2,2]):
-                    self.allowed_species.extend(original_allowed_species)
+        # Update allowed_species accordingly: the images of one template site
+        # are listed next to each other in the supercell.
+        image_count = len(self.template_structure) // primitive_site_count
+        self.allowed_species = [
+            allowed_species
+            for allowed_species in self.allowed_species
+            for _ in range(image_count)
+        ]
         if len(self.allowed_species) != len(self.template_structure):
             raise ValueError(f"After supercell, species length {len(self.allowed_species)} does not match template structure length {len(self.template_structure)}!")
         
-- 
2.43.0


From 3179d9ed8f019ab9030f2c03c07bc5badad8a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:28 +0000
Subject: [PATCH 24/41] fix: keep periodic images of an excluded center site in
 local environments

---
 kmcpy/structure/local_lattice_structure.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kmcpy/structure/local_lattice_structure.py b/kmcpy/structure/local_lattice_structure.py
index 5f5d260..7c34c38 100644
--- a/kmcpy/structure/local_lattice_structure.py
+++ b/kmcpy/structure/local_lattice_structure.py
@@ -136,15 +136,16 @@ class LocalLatticeStructure(LatticeStructure):
         return list(dict.fromkeys(tokens))
 
     def _is_center_site(self, site_info) -> bool:
-        """Return whether a sphere result corresponds to the center site."""
+        """Return whether a sphere result corresponds to the center site.
+
+        Periodic images of the center are other sites and are kept.
+        """
         site = site_info[0]
         site_index = site_info[2]
+        distance = np.linalg.norm(site.coords - self.center_site.coords)
         if self.center_index is not None and int(site_index) == int(self.center_index):
-            return True
-        return (
-            np.linalg.norm(site.coords - self.center_site.coords)
-            <= self.local_site_order.center_match_tolerance
-        )
+            return distance <= max(self.local_site_order.center_match_tolerance, 1e-8)
+        return distance <= self.local_site_order.center_match_tolerance
 
     @staticmethod
     def sort_neighbor_info(neighbor_info: List[Dict[str, Any]]) -> List[Dict[str, Any]]:
-- 
2.43.0


From 6f703860412c96121cd6f499728dd4387b1b35dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:07 +0000
Subject: [PATCH 25/41] fix: give equal local environments equal hashes

---
 kmcpy/structure/local_site_order.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/local_site_order.py b/kmcpy/structure/local_site_order.py
index 8f28c41..532ad0a 100644
--- a/kmcpy/structure/local_site_order.py
+++ b/kmcpy/structure/local_site_order.py
@@ -160,7 +160,8 @@ def ordered_site_signature(
             {
                 "species": site.species_string,
                 "cartesian_coords": [
-                    round(float(coord), decimals) for coord in site.coords
+                    # adding 0.0 turns a rounded -0.0 into 0.0
+                    round(float(coord), decimals) + 0.0 for coord in site.coords
                 ],
             }
         )
-- 
2.43.0


From 56e39ad46273c18879c9b685c644cce7614f697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 26/41] fix: keep periodic images of an excluded center site
 when enumerating environments

---
 kmcpy/structure/local_environment_enumerator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index b4c66ea..15fa3a0 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -352,9 +352,11 @@ def _is_center_site(
 ) -> bool:
     site = site_info[0]
     site_index = site_info[2]
+    distance = np.linalg.norm(site.coords - center_site.coords)
     if center_index is not None and int(site_index) == int(center_index):
-        return True
-    return np.linalg.norm(site.coords - center_site.coords) <= order.center_match_tolerance
+        # periodic images of the center are other sites
+        return distance <= max(order.center_match_tolerance, 1e-8)
+    return distance <= order.center_match_tolerance
 
 
 def _normalize_exclude_species(exclude_species) -> list[str]:
-- 
2.43.0


From f80acd353fb4243203f9940281b0c26cac414759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 27/41] fix: accept zero counts when enumerating environments

---
 kmcpy/structure/local_environment_enumerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 15fa3a0..2c3c274 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -768,7 +768,7 @@ def _matches_counts(
 ) -> bool:
     if species_counts is None:
         return True
-    return Counter(species_by_site.values()) == species_counts
+    return Counter(species_by_site.values()) == Counter(species_counts)
 
 
 def _canonical_counts(species_counts: Mapping[Any, int] | None) -> dict[str, int] | None:
-- 
2.43.0


From d9aa3ff4eed406314b310dc7ad86030b52100057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 28/41] fix: vary a site with several periodic images once when
 enumerating environments

---
 kmcpy/structure/local_environment_enumerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 2c3c274..254d5ab 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -405,7 +405,7 @@ def _resolve_variable_site_indices(
 ) -> tuple[int, ...]:
     local_sites = set(local_site_indices)
     if variable_site_indices is not None:
-        resolved = tuple(int(index) for index in variable_site_indices)
+        resolved = tuple(dict.fromkeys(int(index) for index in variable_site_indices))
         missing = [index for index in resolved if index not in local_sites]
         if missing:
             raise ValueError(
@@ -416,7 +416,8 @@ def _resolve_variable_site_indices(
         return resolved
 
     resolved_sites = []
-    for index in local_site_indices:
+    # a site can appear several times, as periodic images, but varies once
+    for index in dict.fromkeys(local_site_indices):
         allowed = lattice_structure.allowed_species[index]
         if allowed is None or len(allowed) <= 1:
             continue
-- 
2.43.0


From 05b49022df28f8f59822d679264881b6dad4a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 29/41] fix: use each hop site's own vacancy state in NEB
 endpoints

---
 kmcpy/structure/local_environment_enumerator.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 254d5ab..63cdd24 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -198,10 +198,14 @@ def generate_neb_endpoint_pair(
     if not _species_equivalent(from_species, to_species):
         raise ValueError("hop sites must have the same first allowed mobile species")
 
+    from_vacancy = _vacancy_value(active_lattice_structure, from_site)
+    to_vacancy = _vacancy_value(active_lattice_structure, to_site)
     initial_occupation = initial_occupation.copy()
+    final_occupation = initial_occupation.copy()
     initial_occupation[from_site] = active_lattice_structure.basis.match_value
-    initial_occupation[to_site] = active_lattice_structure.basis.mismatch_value
-    final_occupation = initial_occupation.flip([from_site, to_site])
+    initial_occupation[to_site] = to_vacancy
+    final_occupation[from_site] = from_vacancy
+    final_occupation[to_site] = active_lattice_structure.basis.match_value
 
     initial, final = _ordered_endpoint_structures(
         lattice_structure,
@@ -763,6 +767,13 @@ def _first_allowed_species(lattice_structure: LatticeStructure, site_index: int)
     return allowed[0]
 
 
+def _vacancy_value(lattice_structure: LatticeStructure, site_index: int) -> int:
+    for specie in lattice_structure.allowed_species[site_index]:
+        if _is_vacancy(specie):
+            return _occupation_value_for_species(lattice_structure, site_index, specie)
+    raise ValueError(f"hop site {site_index} does not allow a vacancy")
+
+
 def _matches_counts(
     species_by_site: Mapping[int, str],
     species_counts: dict[str, int] | None,
-- 
2.43.0


From a5a38bdb9526664f7745e4b709fa2c20e863c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:03 +0000
Subject: [PATCH 30/41] fix: fit models with a single feature

---
 kmcpy/models/fitting/fitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kmcpy/models/fitting/fitter.py b/kmcpy/models/fitting/fitter.py
index a8346a3..eec020d 100644
--- a/kmcpy/models/fitting/fitter.py
+++ b/kmcpy/models/fitting/fitter.py
@@ -308,10 +308,10 @@ class LCEFitter(BaseFitter):
         import numpy as np
 
         logger.info("Loading E_KRA from %s ...", ekra_fname)
-        e_kra = np.loadtxt(ekra_fname)
-        weight = np.loadtxt(weight_fname)
+        e_kra = np.loadtxt(ekra_fname, ndmin=1)
+        weight = np.loadtxt(weight_fname, ndmin=1)
         weight_copy = copy(weight)
-        correlation_matrix = np.loadtxt(corr_fname)
+        correlation_matrix = np.loadtxt(corr_fname, ndmin=2)
 
         keci, empty_cluster, y_pred = self._fit_lasso_values(
             correlation_matrix=correlation_matrix,
-- 
2.43.0


From 920013e1a472592aba0aeef009860f9605dcd28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:03 +0000
Subject: [PATCH 31/41] fix: check the weights before overwriting fitting
 inputs

---
 kmcpy/io/neb/data.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/kmcpy/io/neb/data.py b/kmcpy/io/neb/data.py
index 20a8956..7d0cc8c 100644
--- a/kmcpy/io/neb/data.py
+++ b/kmcpy/io/neb/data.py
@@ -474,6 +474,7 @@ class NEBDataLoader:
         if not self.neb_entries:
             raise ValueError("No entries to save")
 
+        weights = self._as_weight_array(weight, len(self.neb_entries))
         output_path = Path(output_dir)
         output_path.mkdir(parents=True, exist_ok=True)
 
@@ -483,11 +484,7 @@ class NEBDataLoader:
 
         np.savetxt(corr_path, self.get_correlation_matrix(), fmt="%.18e")
         np.savetxt(ekra_path, self.get_properties(), fmt="%.18e")
-        np.savetxt(
-            weight_path,
-            self._as_weight_array(weight, len(self.neb_entries)),
-            fmt="%.18e",
-        )
+        np.savetxt(weight_path, weights, fmt="%.18e")
 
         logger.info("Saved fitting inputs to %s", output_path)
         return {
-- 
2.43.0


From 55521017faad3c8023a4fe4376162b1e5cf6ab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:03 +0000
Subject: [PATCH 32/41] fix: keep the features of an entry added to several
 loaders

---
 kmcpy/io/neb/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kmcpy/io/neb/data.py b/kmcpy/io/neb/data.py
index 7d0cc8c..deb3e6b 100644
--- a/kmcpy/io/neb/data.py
+++ b/kmcpy/io/neb/data.py
@@ -11,7 +11,7 @@ import json
 from pathlib import Path
 import numpy as np
 from typing import Any, List, Dict, Optional, Sequence, TYPE_CHECKING
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 import logging
 from pymatgen.core import Structure
 from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
@@ -238,7 +238,8 @@ class NEBDataLoader:
             if len(neb_entry.correlation) != len(self.neb_entries[0].correlation):
                 raise ValueError("Correlation vector length mismatch")
         
-        self.neb_entries.append(neb_entry)
+        # Keep a copy: adding the same entry elsewhere recomputes its vectors.
+        self.neb_entries.append(replace(neb_entry))
         self.model = resolved_model
         self.model_name = getattr(resolved_model, "name", "unknown")
         logger.info(f"Added NEB entry with property value: {neb_entry.property_value:.6f}")
-- 
2.43.0


From 34af547bcd548b9da1f2f0a569b3fb3660fb7912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:03 +0000
Subject: [PATCH 33/41] fix: refuse to mix models with different features in
 one loader

---
 kmcpy/io/neb/data.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kmcpy/io/neb/data.py b/kmcpy/io/neb/data.py
index deb3e6b..1211261 100644
--- a/kmcpy/io/neb/data.py
+++ b/kmcpy/io/neb/data.py
@@ -51,6 +51,14 @@ def _load_structure_source(
     )
 
 
+def _feature_signature(model) -> tuple:
+    """Identify what the correlation columns of a model mean."""
+    return (
+        getattr(model, "orbit_fingerprints", None),
+        getattr(model, "local_environment_hash", None),
+    )
+
+
 @dataclass
 class NEBEntry:
     """
@@ -237,6 +245,10 @@ class NEBDataLoader:
                 raise ValueError("Occupation vector length mismatch")
             if len(neb_entry.correlation) != len(self.neb_entries[0].correlation):
                 raise ValueError("Correlation vector length mismatch")
+            if _feature_signature(resolved_model) != _feature_signature(self.model):
+                raise ValueError(
+                    "Entries of one loader must use models with the same features"
+                )
         
         # Keep a copy: adding the same entry elsewhere recomputes its vectors.
         self.neb_entries.append(replace(neb_entry))
-- 
2.43.0


From b5595e60e232fa95926dc50974553027fde60685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:53 +0000
Subject: [PATCH 34/41] fix: merge a further species listed at an equivalent
 position into the site it shares

---
 kmcpy/io/cif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/io/cif.py b/kmcpy/io/cif.py
index 1bd2cd0..bce6f6c 100644
--- a/kmcpy/io/cif.py
+++ b/kmcpy/io/cif.py
@@ -141,7 +141,7 @@ class _LabeledCifParser(CifParser):
                     coord_to_species[match] += comp
                     # disordered magnetic not currently supported
                     coord_to_magmoms[match] = None
-                    coord_to_labels[coord] += data["_atom_site_label"][i]
+                    coord_to_labels[match] += data["_atom_site_label"][i]
 
         sum_occu = [
             sum(c.values())
-- 
2.43.0


From 8a5307d4e5690bf2f3dba88c4c24cf18cb6631b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:06 +0000
Subject: [PATCH 35/41] fix: leave an occupation unchanged when an assignment
 is refused

---
 kmcpy/structure/basis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index cbf265c..3192624 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -418,9 +418,13 @@ class Occupation:
     
     def __setitem__(self, index: Union[int, slice], value: Union[int, List[int]]):
         """Set occupation value(s) at index."""
-        self._data[index] = value
-        if hasattr(self, '_validate'):  # Only validate if not in constructor
+        previous = self._data.copy()
+        try:
+            self._data[index] = value
             self._validate()
+        except Exception:
+            self._data = previous
+            raise
     
     def __iter__(self) -> Iterator[int]:
         """Iterate over occupation values."""
-- 
2.43.0


From aa7b26bb2669c6dac67184e48dc2ac6a6adfb95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:51 +0000
Subject: [PATCH 36/41] fix: refuse occupation values that would be stored
 rounded

---
 kmcpy/structure/basis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index 3192624..8c659ed 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -372,6 +372,7 @@ class Occupation:
         self._data = np.array(data, dtype=type(self._basis_obj.match_value))
         
         if validate:
+            self._check_exact(self._data, data)
             self._validate()
     
     def _validate(self):
@@ -381,6 +382,12 @@ class Occupation:
             raise ValueError(f"Invalid values {invalid} for {self._basis_name} basis. "
                            f"Must be in {self._basis_obj.valid_values}")
     
+    @staticmethod
+    def _check_exact(stored, given):
+        """Refuse values that the data type of the basis can only store rounded."""
+        if not np.all(stored == np.asarray(given)):
+            raise ValueError(f"Occupation values must be exact basis values, got {given}")
+
     @property
     def basis(self) -> str:
         """Get the basis type name."""
@@ -421,6 +428,7 @@ class Occupation:
         previous = self._data.copy()
         try:
             self._data[index] = value
+            self._check_exact(self._data[index], value)
             self._validate()
         except Exception:
             self._data = previous
-- 
2.43.0


From 0d0d0ad26d542db46e938f59c542013b853ea6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:51 +0000
Subject: [PATCH 37/41] fix: convert states other than the first one to
 mismatch

---
 kmcpy/structure/basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index 8c659ed..cd13ca2 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -117,10 +117,10 @@ class BasisFunction(MSONable, ABC):
     
     def convert_to(self, value: Union[int, float], target_basis: 'BasisFunction') -> Union[int, float]:
         """Convert a value to another basis function."""
-        if value == self.mismatch_value:
-            return target_basis.mismatch_value
-        else:
+        if value == self.match_value:
             return target_basis.match_value
+        else:
+            return target_basis.mismatch_value
     
     def __str__(self) -> str:
         return f"{self.__class__.__name__}(match={self.match_value}, mismatch={self.mismatch_value})"
-- 
2.43.0


From af6f8eeef4363014e4a69c3ea7888bd9ba2f2fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:51 +0000
Subject: [PATCH 38/41] fix: keep the registered basis name on copies of an
 occupation

---
 kmcpy/structure/basis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index cd13ca2..4a4e164 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -365,7 +365,10 @@ class Occupation:
             self._basis_name = basis
         elif isinstance(basis, BasisFunction):
             self._basis_obj = basis
-            self._basis_name = basis.name
+            self._basis_name = next(
+                (name for name, cls in BASIS_REGISTRY.items() if cls is type(basis)),
+                basis.name,
+            )
         else:
             raise ValueError(f"Invalid basis type. Must be string or BasisFunction instance")
         
-- 
2.43.0


From deed8e1aa0b3f99216d8384611b3e0e1075f8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:51 +0000
Subject: [PATCH 39/41] fix: draw a seeded random occupation without reseeding
 the global generator

---
 kmcpy/structure/basis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index 4a4e164..2fa9032 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -646,11 +646,10 @@ class Occupation:
         Returns:
             Random Occupation object
         """
-        if seed is not None:
-            np.random.seed(seed)
+        rng = np.random if seed is None else np.random.RandomState(seed)
 
         # Generate random boolean array for occupied sites
-        occupied = np.random.random(n_sites) < fill_fraction
+        occupied = rng.random_sample(n_sites) < fill_fraction
 
         if isinstance(basis, str):
             basis_obj = get_basis(basis)
-- 
2.43.0


From d8b2ce9a548dae7d191c1c7a0b7a5a528402e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 40/41] fix: never replace a workflow file that cannot be read
 when writing a section

---
 kmcpy/simulator/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kmcpy/simulator/config.py b/kmcpy/simulator/config.py
index 5f20cda..e65f1e0 100644
--- a/kmcpy/simulator/config.py
+++ b/kmcpy/simulator/config.py
@@ -515,8 +515,11 @@ class Configuration(MSONable):
             if path.exists():
                 try:
                     yaml_data = loadfn(path)
-                except Exception:
-                    yaml_data = {}
+                except Exception as exc:
+                    raise ValueError(
+                        f"Existing YAML file {filename} cannot be read and is "
+                        "not replaced"
+                    ) from exc
             else:
                 yaml_data = {}
             if not isinstance(yaml_data, dict):
-- 
2.43.0


From a7e17d4139f13f26165f3b25b26e1682e0223f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:38 +0000
Subject: [PATCH 41/41] fix: build supercells in fractional coordinates so
 sites on a cell face keep their cell

---
 kmcpy/structure/sites.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/sites.py b/kmcpy/structure/sites.py
index e976a04..6febc19 100644
--- a/kmcpy/structure/sites.py
+++ b/kmcpy/structure/sites.py
@@ -114,6 +114,9 @@ def make_kmc_supercell(
         scale_matrix = np.array(scale_matrix * np.eye(3), int)
     new_lattice = Lattice(np.dot(scale_matrix, structure.lattice.matrix))
     translations = lattice_points_in_supercell(scale_matrix)
+    # Stay in fractional coordinates: a round trip through Cartesian ones can
+    # turn a coordinate of 0 into -0 and wrap the site to the far cell edge.
+    inverse_scale = np.linalg.inv(scale_matrix)
 
     new_sites = []
     for site in structure:
@@ -126,10 +129,9 @@ def make_kmc_supercell(
             new_sites.append(
                 PeriodicSite(
                     site.species,
-                    site.coords + new_lattice.get_cartesian_coords(translation),
+                    np.dot(site.frac_coords, inverse_scale) + translation,
                     new_lattice,
                     properties=properties,
-                    coords_are_cartesian=True,
                     to_unit_cell=True,
                     skip_checks=True,
                 )
-- 
2.43.0

