From 32b67d03f4ceeaa035024d9711348aabd4dbbcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 01/30] fix: parallel_insert occupancy update passes
 equal-shape operands to lax.select

---
 xtructure/hashtable/insert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index f342f60..84115a1 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -242,12 +242,12 @@ def _hashtable_parallel_insert_internal(
         bucket_i32 = jnp.asarray(index.index, dtype=jnp.int32)
         slot_u32 = jnp.asarray(index.slot_index, dtype=jnp.uint32)
         safe_slot_u32 = jnp.asarray(
-            jax.lax.select(successful, slot_u32, jnp.uint32(0)),
+            jax.lax.select(successful, slot_u32, jnp.zeros_like(slot_u32)),
             dtype=jnp.uint32,
         )
         bit = jnp.left_shift(jnp.uint32(1), safe_slot_u32)
         bit = jnp.asarray(
-            jax.lax.select(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
+            jax.lax.select(successful, bit, jnp.zeros_like(bit)), dtype=jnp.uint32
         )
         table = table.replace(
             bucket_occupancy=table.bucket_occupancy.at[bucket_i32].add(bit)
-- 
2.43.0


From 288c108e5102a79ff8197da5ce62737e2832939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 02/30] fix: hash table insertion honours the probe limit that
 lookups use

---
 xtructure/hashtable/insert.py | 63 ++++++++++++++++++++++-------------
 xtructure/hashtable/lookup.py | 12 ++++---
 2 files changed, 47 insertions(+), 28 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 84115a1..666f614 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -112,7 +112,10 @@ def _hashtable_insert_jit(
 
     idx, found, fingerprint = _hashtable_lookup_bucket_jit(table, input)
 
-    is_empty = idx.slot_index >= table.bucket_fill_levels[idx.index]
+    is_empty = jnp.logical_and(
+        idx.slot_index >= table.bucket_fill_levels[idx.index],
+        idx.slot_index < table.bucket_size,
+    )
     can_insert = jnp.logical_and(jnp.logical_not(found), is_empty)
 
     def _no_insert():
@@ -138,38 +141,49 @@ def _hashtable_parallel_insert_internal(
     index: Any,
     updatable: chex.Array,
     fingerprints: chex.Array,
+    chain_probes: chex.Array,
 ) -> tuple[Any, Any, chex.Array]:
     capacity = jnp.asarray(table._capacity, dtype=SIZE_DTYPE)
     probe_steps = jnp.asarray(probe_steps, dtype=SIZE_DTYPE)
 
-    def _advance(idx: Any, step: chex.Array) -> Any:
+    def _advance(
+        idx: Any, step: chex.Array, used: chex.Array
+    ) -> tuple[Any, chex.Array]:
         next_bucket = idx.slot_index >= (table.bucket_size - 1)
 
-        def _next_bucket() -> Any:
+        def _next_bucket() -> tuple[Any, chex.Array]:
             mask = capacity - SIZE_DTYPE(1)
-            next_index = (idx.index + step) & mask
-            bucket_fill = table.bucket_fill_levels[next_index]
-            return BucketIdxCls(
+            # Lookups never probe past the limit, so neither may an insertion.
+            in_limit = used < SIZE_DTYPE(table.max_probes)
+            next_index = jnp.where(in_limit, (idx.index + step) & mask, idx.index)
+            bucket_fill = jnp.where(
+                in_limit, table.bucket_fill_levels[next_index], table.bucket_size
+            )
+            next_idx = BucketIdxCls(
                 index=SIZE_DTYPE(next_index),
                 slot_index=SLOT_IDX_DTYPE(bucket_fill),
             )
+            return next_idx, used + SIZE_DTYPE(table.bucket_size)
 
-        def _same_bucket() -> Any:
-            return BucketIdxCls(
+        def _same_bucket() -> tuple[Any, chex.Array]:
+            next_idx = BucketIdxCls(
                 index=idx.index,
                 slot_index=SLOT_IDX_DTYPE(idx.slot_index + 1),
             )
+            return next_idx, used
 
         return jax.lax.cond(next_bucket, _next_bucket, _same_bucket)
 
-    def _next_idx(idxs: Any, unupdateds: chex.Array) -> Any:
+    def _next_idx(
+        idxs: Any, unupdateds: chex.Array, used: chex.Array
+    ) -> tuple[Any, chex.Array]:
         return jax.vmap(
-            lambda active, current_idx, step: jax.lax.cond(
+            lambda active, current_idx, step, current_used: jax.lax.cond(
                 active,
-                lambda: _advance(current_idx, step),
-                lambda: current_idx,
+                lambda: _advance(current_idx, step, current_used),
+                lambda: (current_idx, current_used),
             )
-        )(unupdateds, idxs, probe_steps)
+        )(unupdateds, idxs, probe_steps, used)
 
     valid_initial = index.slot_index < table.bucket_size
     flat_initial_slots = index.index * SIZE_DTYPE(
@@ -184,15 +198,15 @@ def _hashtable_parallel_insert_internal(
         jnp.logical_and(updatable, jnp.logical_not(valid_initial)),
     )
 
-    def _cond(val: tuple[Any, chex.Array, chex.Array]) -> chex.Array:
-        _, pending, probes = val
+    def _cond(val: tuple[Any, chex.Array, chex.Array, chex.Array]) -> chex.Array:
+        _, pending, probes, _ = val
         return jnp.logical_and(jnp.any(pending), probes < table.max_probes)
 
     def _body(
-        val: tuple[Any, chex.Array, chex.Array],
-    ) -> tuple[Any, chex.Array, chex.Array]:
-        idxs, pending, probes = val
-        updated_idxs = _next_idx(idxs, pending)
+        val: tuple[Any, chex.Array, chex.Array, chex.Array],
+    ) -> tuple[Any, chex.Array, chex.Array, chex.Array]:
+        idxs, pending, probes, used = val
+        updated_idxs, used = _next_idx(idxs, pending, used)
 
         valid = updated_idxs.slot_index < table.bucket_size
         flat_updated_slots = updated_idxs.index * SIZE_DTYPE(
@@ -206,10 +220,12 @@ def _hashtable_parallel_insert_internal(
             jnp.logical_and(updatable, jnp.logical_not(unique_mask)),
             jnp.logical_and(updatable, jnp.logical_not(valid)),
         )
-        return updated_idxs, next_pending, probes + 1
+        return updated_idxs, next_pending, probes + 1, used
 
-    index, pending, _ = jax.lax.while_loop(
-        _cond, _body, (index, pending, jnp.uint32(0))
+    index, pending, _, _ = jax.lax.while_loop(
+        _cond,
+        _body,
+        (index, pending, jnp.uint32(0), jnp.asarray(chain_probes, dtype=SIZE_DTYPE)),
     )
 
     successful = jnp.logical_and(updatable, jnp.logical_not(pending))
@@ -441,7 +457,7 @@ def _hashtable_parallel_insert_jit(
         )
 
         initial_found = jnp.logical_not(unique_filled)
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, chain_probes = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idx,
@@ -495,6 +511,7 @@ def _hashtable_parallel_insert_jit(
                 idx,
                 updatable,
                 fingerprints,
+                chain_probes,
             )
 
         cond_found = jnp.asarray(found, dtype=jnp.bool_)
diff --git a/xtructure/hashtable/lookup.py b/xtructure/hashtable/lookup.py
index b514a57..de19073 100644
--- a/xtructure/hashtable/lookup.py
+++ b/xtructure/hashtable/lookup.py
@@ -95,7 +95,10 @@ def _hashtable_lookup_internal(
         match_slot = cast(jax.Array, jnp.where(found_fast, first_match_slot, match_fb))
 
         bucket_full = filled_limit_u32 == bucket_size_u32
+        probes = probes + bucket_size_u32
         should_stop = jnp.logical_or(new_found, jnp.logical_not(bucket_full))
+        # Stay on the last probed bucket: the next one is beyond the probe limit.
+        should_stop = jnp.logical_or(should_stop, probes >= max_probes_u32)
 
         out_slot = cast(jax.Array, jnp.where(new_found, match_slot, filled_limit))
         next_bucket = (bucket_idx + probe_step) & mask
@@ -108,7 +111,6 @@ def _hashtable_lookup_internal(
             ),
         )
 
-        probes = probes + bucket_size_u32
         probes = cast(jax.Array, jnp.where(should_stop, max_probes_u32, probes))
         return updated_idx, new_found, probes
 
@@ -146,7 +148,7 @@ def _hashtable_lookup_parallel_internal(
     fingerprints: chex.Array,
     founds: chex.Array,
     active: chex.Array | None = None,
-) -> tuple[Any, chex.Array]:
+) -> tuple[Any, chex.Array, chex.Array]:
     if active is None:
         active = jnp.ones(inputs.shape.batch, dtype=jnp.bool_)
 
@@ -293,10 +295,10 @@ def _hashtable_lookup_parallel_internal(
         active = continue_mask
         return idxs, founds, probes, active
 
-    idxs, founds, _, _ = jax.lax.while_loop(
+    idxs, founds, probes, _ = jax.lax.while_loop(
         _cond, _body, (idxs, founds, probes, active)
     )
-    return idxs, founds
+    return idxs, founds, probes
 
 
 @jax.jit
@@ -320,7 +322,7 @@ def _hashtable_lookup_parallel_jit(
         )
         founds = jnp.zeros(batch_size, dtype=jnp.bool_)
 
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, _ = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idxs,
-- 
2.43.0


From f723d4e365983fb7f6f5b00e126cc458e911273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 03/30] fix: integer unique_key values are compared as integers
 in batched insertion

---
 xtructure/hashtable/hash_utils.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index 66433c8..33094f1 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -77,6 +77,13 @@ if _DEDUPE_MODE not in {"approx", "safe", "exact"}:
 HASHTABLE_DEDUPE_MODE = _DEDUPE_MODE
 
 
+def _worst_key(dtype: Any) -> jax.Array:
+    """Largest value of a key dtype; integer keys are compared as integers."""
+    if jnp.issubdtype(dtype, jnp.integer):
+        return jnp.asarray(jnp.iinfo(dtype).max, dtype=dtype)
+    return jnp.asarray(jnp.inf, dtype=dtype)
+
+
 def _first_occurrence_mask(
     values: chex.Array, active: chex.Array, sentinel: chex.Array
 ) -> chex.Array:
@@ -272,14 +279,15 @@ def _compute_unique_mask_from_uint32eds(
             raise ValueError("unique_key must match uint32eds leading dimension.")
 
         sorted_unique_key = unique_key_arr[sorted_indices]
-        masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+        worst_key = _worst_key(sorted_unique_key.dtype)
+        masked_key = jnp.where(sorted_filled, sorted_unique_key, worst_key)
         min_keys = (
-            jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+            jnp.full((batch_len,), worst_key, dtype=masked_key.dtype)
             .at[group_id]
             .min(masked_key)
         )
         candidate_indices = jnp.where(
-            masked_key == min_keys[group_id],
+            jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
             sorted_indices,
             batch_len_i32,
         )
@@ -418,14 +426,15 @@ def _compute_unique_mask_from_hash_pairs(
                 raise ValueError("unique_key must match hash arrays leading dimension.")
 
             sorted_unique_key = unique_key_arr[sorted_indices]
-            masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+            worst_key = _worst_key(sorted_unique_key.dtype)
+            masked_key = jnp.where(sorted_filled, sorted_unique_key, worst_key)
             min_keys = (
-                jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+                jnp.full((batch_len,), worst_key, dtype=masked_key.dtype)
                 .at[group_id]
                 .min(masked_key)
             )
             candidate_indices = jnp.where(
-                masked_key == min_keys[group_id],
+                jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
                 sorted_indices,
                 batch_len_i32,
             )
-- 
2.43.0


From 33e72d9c336abaae2e6fbc02e5cb9e83b930646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 04/30] fix: batched insertion no longer refuses items while
 buckets are free

---
 xtructure/hashtable/insert.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 666f614..c0feb00 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -198,14 +198,20 @@ def _hashtable_parallel_insert_internal(
         jnp.logical_and(updatable, jnp.logical_not(valid_initial)),
     )
 
-    def _cond(val: tuple[Any, chex.Array, chex.Array, chex.Array]) -> chex.Array:
-        _, pending, probes, _ = val
-        return jnp.logical_and(jnp.any(pending), probes < table.max_probes)
+    def _cond(val: tuple[Any, chex.Array, chex.Array]) -> chex.Array:
+        # An item displaced by a later arrival needs further rounds: stop only when
+        # every pending item has used up its own probe limit.
+        idxs, pending, used = val
+        exhausted = jnp.logical_and(
+            idxs.slot_index >= table.bucket_size,
+            used >= SIZE_DTYPE(table.max_probes),
+        )
+        return jnp.any(jnp.logical_and(pending, jnp.logical_not(exhausted)))
 
     def _body(
-        val: tuple[Any, chex.Array, chex.Array, chex.Array],
-    ) -> tuple[Any, chex.Array, chex.Array, chex.Array]:
-        idxs, pending, probes, used = val
+        val: tuple[Any, chex.Array, chex.Array],
+    ) -> tuple[Any, chex.Array, chex.Array]:
+        idxs, pending, used = val
         updated_idxs, used = _next_idx(idxs, pending, used)
 
         valid = updated_idxs.slot_index < table.bucket_size
@@ -220,12 +226,10 @@ def _hashtable_parallel_insert_internal(
             jnp.logical_and(updatable, jnp.logical_not(unique_mask)),
             jnp.logical_and(updatable, jnp.logical_not(valid)),
         )
-        return updated_idxs, next_pending, probes + 1, used
+        return updated_idxs, next_pending, used
 
-    index, pending, _, _ = jax.lax.while_loop(
-        _cond,
-        _body,
-        (index, pending, jnp.uint32(0), jnp.asarray(chain_probes, dtype=SIZE_DTYPE)),
+    index, pending, _ = jax.lax.while_loop(
+        _cond, _body, (index, pending, jnp.asarray(chain_probes, dtype=SIZE_DTYPE))
     )
 
     successful = jnp.logical_and(updatable, jnp.logical_not(pending))
-- 
2.43.0


From 94ce1d267b5104ce923dcb8e7454d78009531dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 05/30] fix: a hash table always has at least the declared
 number of slots

---
 xtructure/hashtable/table.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xtructure/hashtable/table.py b/xtructure/hashtable/table.py
index 97a227f..94611b5 100644
--- a/xtructure/hashtable/table.py
+++ b/xtructure/hashtable/table.py
@@ -29,7 +29,11 @@ def _hashtable_build_jit(
     hash_size_multiplier: int = 2,
     max_probes: int | None = None,
 ) -> "HashTable":
-    _target_cap = int(hash_size_multiplier * capacity / bucket_size)
+    # Never fewer slots than the declared capacity, however the division rounds.
+    _target_cap = max(
+        int(hash_size_multiplier * capacity / bucket_size),
+        -(-capacity // bucket_size),
+    )
     if _target_cap <= 1:
         _capacity = 1
     else:
-- 
2.43.0


From dcaf40474c93e9fab5e281f7bf75b24bd6de1a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 06/30] fix: conditional updates accept 8/16-bit integer
 indices on any batch length

---
 xtructure/core/xtructure_numpy/array_ops.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index aebea61..6e60f57 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -4,6 +4,14 @@ import jax.numpy as jnp
 import numpy as np
 
 
+def _widen_index(index: Any) -> jnp.ndarray:
+    """8/16-bit integer indices cannot hold array lengths or strides; widen them."""
+    index = jnp.asarray(index)
+    if jnp.issubdtype(index.dtype, jnp.integer) and index.dtype.itemsize < 4:
+        return index.astype(jnp.int32)
+    return index
+
+
 def _update_array_on_condition(
     original_array: jnp.ndarray,
     indices: Union[jnp.ndarray, tuple[jnp.ndarray, ...]],
@@ -26,7 +34,9 @@ def _update_array_on_condition(
         flat_batch_size = np.prod(batch_shape).item()
         reshaped_array = original_array.reshape((flat_batch_size, *item_shape))
 
-        raveled_indices = jnp.ravel_multi_index(indices, batch_shape, mode="clip")
+        raveled_indices = jnp.ravel_multi_index(
+            tuple(_widen_index(index) for index in indices), batch_shape, mode="clip"
+        )
 
         result = _update_array_on_condition(
             reshaped_array, raveled_indices, condition, values_to_set
@@ -38,7 +48,7 @@ def _update_array_on_condition(
     if num_updates == 0:
         return original_array
 
-    indices_array = jnp.asarray(indices)
+    indices_array = _widen_index(indices)
     if condition.shape != indices_array.shape:
         raise ValueError(
             f"`condition` shape {condition.shape} must match `indices` shape {indices_array.shape}."
-- 
2.43.0


From c8e4bd191b4ab7009c335a178db0feef677df1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 07/30] fix: at[slice].set_as_condition applies its update
 instead of dropping it

---
 xtructure/core/xtructure_decorators/indexing.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/indexing.py b/xtructure/core/xtructure_decorators/indexing.py
index 7408932..c3beb93 100644
--- a/xtructure/core/xtructure_decorators/indexing.py
+++ b/xtructure/core/xtructure_decorators/indexing.py
@@ -136,10 +136,18 @@ class _Updater:
 
                     # Array-like update path.
                     if hasattr(nested_updater, "set"):
+                        indices = self.indices
+                        if isinstance(indices, slice):
+                            indices = jnp.arange(original_field_value.shape[0])[indices]
+                        field_condition = condition
+                        if not isinstance(indices, tuple) and jnp.ndim(condition) == 0:
+                            field_condition = jnp.broadcast_to(
+                                condition, jnp.shape(indices)
+                            )
                         new_field_data[field_name] = _update_array_on_condition(
                             original_field_value,
-                            self.indices,
-                            condition,
+                            indices,
+                            field_condition,
                             update_val_for_this_field_if_true,
                         )
                         continue
-- 
2.43.0


From 458392c3f9530f6481f5e0aeb8a7a681489bed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 08/30] fix: concat counts a negative axis from the last batch
 dimension in every field

---
 xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index 56913bf..be03076 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -66,7 +66,7 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
         first_batch_shape = dataclasses[0].shape.batch
         concat_axis_adjusted = axis if axis >= 0 else len(first_batch_shape) + axis
 
-        if concat_axis_adjusted >= len(first_batch_shape):
+        if not 0 <= concat_axis_adjusted < len(first_batch_shape):
             raise ValueError(
                 f"Concatenation axis {axis} is out of bounds for batch shape {first_batch_shape}"
             )
@@ -85,7 +85,8 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
                     )
 
         return jax.tree_util.tree_map(
-            lambda *arrays: jnp.concatenate(arrays, axis=axis), *dataclasses
+            lambda *arrays: jnp.concatenate(arrays, axis=concat_axis_adjusted),
+            *dataclasses,
         )
 
     raise ValueError(
-- 
2.43.0


From bcda11352a9c99fa72c6b45d1dfce84301d1c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 09/30] fix: records with bfloat16 or float8 fields load back
 from their saved files

---
 xtructure/io/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 11679a2..8e554fd 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -145,7 +145,12 @@ def _unflatten_data_for_load(
                 field_values[field_name] = unpacked
             elif full_key in data:
                 # Load JAX array from NumPy array
-                field_values[field_name] = jnp.array(data[full_key])
+                array = data[full_key]
+                if array.dtype.kind == "V" and field_descriptor is not None:
+                    # The npy format keeps extended float types (bfloat16, float8)
+                    # only as raw bytes; the declared dtype gives them back.
+                    array = array.view(np.dtype(field_descriptor.dtype))
+                field_values[field_name] = jnp.array(array)
     return field_values
 
 
-- 
2.43.0


From 0a03f723aa0c939a0a624161d3ef703cb5e72e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 10/30] fix: load finds the file that save wrote for a path
 without the .npz extension

---
 xtructure/io/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 8e554fd..b7f6fd9 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -167,6 +167,10 @@ def load(path: str) -> Xtructurable:
     Returns:
         A new instance of the saved xtructure dataclass.
     """
+    # save() names the file the way NumPy does, appending the missing extension.
+    if not os.path.exists(path) and not str(path).endswith(".npz"):
+        path = f"{path}.npz"
+
     with np.load(path, allow_pickle=False) as data:
         # Extract metadata
         if METADATA_MODULE_KEY not in data or METADATA_CLASS_NAME_KEY not in data:
-- 
2.43.0


From d7853ca7d3d8f7d1d2dca0d62b4e757d70af071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 11/30] fix: packing and unpacking accept empty batches

---
 .../core/xtructure_decorators/aggregate_bitpack/bitpack.py  | 2 +-
 xtructure/core/xtructure_decorators/bitpack_accessors.py    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
index 36bf01b..f0f90cb 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
@@ -197,7 +197,7 @@ def to_uint8(values: chex.Array, active_bits: int = 1) -> chex.Array:
     grouped = values_flat.reshape((-1, num_values_per_block)).astype(jnp.uint32)
     words = pack_words_all_xla(grouped, tables)
     bytes_all = jax.lax.bitcast_convert_type(words, jnp.uint8).reshape(
-        (words.shape[0], -1)
+        (words.shape[0], words.shape[1] * 4)
     )
     return bytes_all[:, :num_bytes_per_block].reshape((-1,)).astype(jnp.uint8)
 
diff --git a/xtructure/core/xtructure_decorators/bitpack_accessors.py b/xtructure/core/xtructure_decorators/bitpack_accessors.py
index ac5fbf6..04d64a3 100644
--- a/xtructure/core/xtructure_decorators/bitpack_accessors.py
+++ b/xtructure/core/xtructure_decorators/bitpack_accessors.py
@@ -125,8 +125,8 @@ def _unpack_value(
         )
 
     words = jax.lax.bitcast_convert_type(
-        flat.reshape((flat.shape[0], -1, 4)), jnp.uint32
-    ).reshape((flat.shape[0], -1))
+        flat.reshape((flat.shape[0], flat.shape[1] // 4, 4)), jnp.uint32
+    )
     words_padded = jnp.concatenate(
         [words, jnp.zeros((words.shape[0], 1), dtype=jnp.uint32)], axis=1
     )
@@ -222,7 +222,7 @@ def _pack_value(
 
     words = pack_words_all_xla(jnp.asarray(flat, dtype=jnp.uint32), tables)
     bytes_all = jax.lax.bitcast_convert_type(words, jnp.uint8).reshape(
-        (flat.shape[0], -1)
+        (words.shape[0], words.shape[1] * 4)
     )
     packed = bytes_all[:, :expected_packed_len]
     return packed.reshape(batch_shape + (expected_packed_len,)).astype(jnp.uint8)
-- 
2.43.0


From 0d1a417d9027a67ffc23bd84a81499fe64892876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 12/30] fix: unique_mask tells wide records apart that differ
 in several top bits or in float keys

---
 .../unique_ops/optimized_unique_ops.py        | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index d376481..270a11f 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -11,6 +11,26 @@ from jax import lax
 from ....xtructure_decorators import Xtructurable
 
 
+def _as_unsigned(keys: jax.Array) -> jax.Array:
+    """Give floating point keys their bit pattern; integers are hashed as they are."""
+    if jnp.issubdtype(keys.dtype, jnp.floating):
+        # Adding zero turns -0.0 into 0.0, which compare equal.
+        bits = jnp.dtype(f"uint{8 * keys.dtype.itemsize}")
+        return lax.bitcast_convert_type(keys + jnp.zeros((), keys.dtype), bits)
+    return keys
+
+
+def _mix_u32(x: jax.Array) -> jax.Array:
+    """Bijective avalanche of a uint32 column.
+
+    Without it, columns that differ only in their top bits (signs, for instance)
+    would cancel each other in every modular combination of the columns.
+    """
+    x = jnp.bitwise_xor(x, x >> jnp.uint32(16)) * jnp.uint32(0x85EBCA6B)
+    x = jnp.bitwise_xor(x, x >> jnp.uint32(13)) * jnp.uint32(0xC2B2AE35)
+    return jnp.bitwise_xor(x, x >> jnp.uint32(16))
+
+
 def _hash_to_wide(keys: Any) -> list[jax.Array]:
     """Hash (N, K) uint32 keys into a fixed-width wide hash."""
     keys = jnp.asarray(keys)
@@ -24,6 +44,8 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
     if k <= max_direct_cols:
         return [keys[:, i] for i in range(k)]
 
+    keys = _as_unsigned(keys)
+
     if use_x64:
         # 128-bit via two uint64
         h1 = keys[:, 0].astype(jnp.uint64)
@@ -44,10 +66,10 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
         return [h1, h2]
     else:
         # 128-bit via four uint32
-        h1 = keys[:, 0].astype(jnp.uint32)
-        h2 = keys[:, 0].astype(jnp.uint32)
-        h3 = keys[:, 0].astype(jnp.uint32)
-        h4 = keys[:, 0].astype(jnp.uint32)
+        h1 = _mix_u32(keys[:, 0].astype(jnp.uint32))
+        h2 = _mix_u32(keys[:, 0].astype(jnp.uint32))
+        h3 = _mix_u32(keys[:, 0].astype(jnp.uint32))
+        h4 = _mix_u32(keys[:, 0].astype(jnp.uint32))
         c1 = jnp.uint32(0x9E3779B1)
         c2 = jnp.uint32(0x85EBCA6B)
         c3 = jnp.uint32(0xC2B2AE35)
@@ -55,8 +77,10 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
 
         def _hash_to_wide_step_u32(i, carry):
             hh1, hh2, hh3, hh4 = carry
-            col = lax.dynamic_index_in_dim(keys, i, axis=1, keepdims=False).astype(
-                jnp.uint32
+            col = _mix_u32(
+                lax.dynamic_index_in_dim(keys, i, axis=1, keepdims=False).astype(
+                    jnp.uint32
+                )
             )
             hh1 = hh1 * c1 + col
             hh2 = hh2 * c2 + col
-- 
2.43.0


From 00b2175f7fe62aa0cf87d67db323c53c6a0892b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 13/30] fix: unique_mask keeps valid records whose key is all
 ones apart from invalid ones

---
 .../unique_ops/optimized_unique_ops.py          | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 270a11f..900334d 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -179,22 +179,11 @@ def unique_mask(
         finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
         effective_filled = jnp.logical_and(effective_filled, finite_key)
 
-    # 4. Handle filled: invalid items get MAX_KEY so they sort to the end
-    for i in range(len(hashes)):
-        dtype = hashes[i].dtype
-        if jnp.issubdtype(dtype, jnp.integer) or dtype == jnp.bool_:
-            max_val = jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
-        elif jnp.issubdtype(dtype, jnp.floating):
-            max_val = jnp.array(jnp.finfo(dtype).max, dtype=dtype)
-        else:
-            raise TypeError(f"Unsupported key dtype for unique_mask: {dtype}")
-        hashes[i] = jnp.where(effective_filled, hashes[i], max_val)
-
     def _stable_sort_perm(perm_in: jax.Array, key_1d: jax.Array) -> jax.Array:
         order = jnp.argsort(key_1d[perm_in], stable=True)
         return perm_in[order]
 
-    # 5. Stable multi-pass argsort to avoid lexsort / multi-key lax.sort.
+    # 4. Stable multi-pass argsort to avoid lexsort / multi-key lax.sort.
     # Start perm as arange to get smallest-index tie-breaking for free.
     perm = jnp.arange(batch_len_i, dtype=jnp.int32)
 
@@ -208,6 +197,10 @@ def unique_mask(
     for h in reversed(hashes):
         perm = _stable_sort_perm(perm, h)
 
+    # 5. Invalid items go to the end, whatever their hash: a key of all ones is valid too.
+    if filled is not None or key is not None:
+        perm = _stable_sort_perm(perm, jnp.logical_not(effective_filled))
+
     # 6. Compute unique mask from sorted hashes
     sorted_hashes = [h[perm] for h in hashes]
 
-- 
2.43.0


From af1efd7358b45402f68e2f0dcf3b42538021c5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 14/30] fix: unique_mask compares the whole packed form of a
 record, tail bytes included

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 900334d..f002f6f 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -132,7 +132,8 @@ def unique_mask(
         def _key_fn(x):
             # Prefer aggregate-packed representation if available for density
             if hasattr(x, "packed") and hasattr(x, "bitpack_schema"):
-                return x.packed.words
+                packed = x.packed
+                return jnp.concatenate([packed.words, packed.tail.astype(jnp.uint32)])
             return x.uint32ed
 
         key_fn_local = _key_fn
-- 
2.43.0


From e169de14c8b06216c8ceca539e2b381a23769cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 15/30] fix: unique_mask accepts integer costs

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index f002f6f..b8a66d3 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -177,8 +177,10 @@ def unique_mask(
     if key is not None:
         key_arr = jnp.asarray(key)
         # Docstring semantics: entries with +inf cost are excluded.
-        finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
-        effective_filled = jnp.logical_and(effective_filled, finite_key)
+        # Integer costs are always finite.
+        if jnp.issubdtype(key_arr.dtype, jnp.floating):
+            finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
+            effective_filled = jnp.logical_and(effective_filled, finite_key)
 
     def _stable_sort_perm(perm_in: jax.Array, key_1d: jax.Array) -> jax.Array:
         order = jnp.argsort(key_1d[perm_in], stable=True)
@@ -189,10 +191,8 @@ def unique_mask(
     perm = jnp.arange(batch_len_i, dtype=jnp.int32)
 
     if key is not None:
-        key_arr2 = jnp.asarray(key)
-        inf_fill = jnp.array(jnp.inf, dtype=key_arr2.dtype)
-        valid_key = jnp.where(effective_filled, key_arr2, inf_fill)
-        perm = _stable_sort_perm(perm, valid_key)
+        # Invalid items need no particular place here: step 5 moves them to the end.
+        perm = _stable_sort_perm(perm, jnp.asarray(key))
 
     # Hash keys: least significant first so the first hash becomes most significant.
     for h in reversed(hashes):
-- 
2.43.0


From 9f346d40a88e0d504df8fdc0bbd82faa58a4e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 16/30] fix: packed tensor views and updates work on empty
 batches and empty fields

---
 .../xtructure_decorators/bitpack_accessors.py  | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/bitpack_accessors.py b/xtructure/core/xtructure_decorators/bitpack_accessors.py
index 04d64a3..a94a14a 100644
--- a/xtructure/core/xtructure_decorators/bitpack_accessors.py
+++ b/xtructure/core/xtructure_decorators/bitpack_accessors.py
@@ -103,12 +103,11 @@ def _unpack_value(
             f"got {packed_arr.shape[-1]}."
         )
 
-    flat = packed_arr.reshape((-1, expected_packed_len))
+    rows = int(np.prod(np.array(batch_shape, dtype=np.int64)))
+    flat = packed_arr.reshape((rows, expected_packed_len))
 
-    if num_values == 0:
-        out_dtype = jnp.bool_ if packed_bits == 1 else jnp.uint8
-        out = jnp.zeros((flat.shape[0], 0), dtype=out_dtype)
-        return out.reshape(batch_shape + unpacked_shape)
+    if num_values == 0 or rows == 0:
+        return jnp.zeros(batch_shape + unpacked_shape, dtype=unpacked_dtype)
 
     if packed_bits == 1:
         bits = jnp.unpackbits(flat, count=num_values, bitorder="little", axis=1)
@@ -183,12 +182,11 @@ def _pack_value(
     num_values = int(np.prod(np.array(unpacked_shape, dtype=np.int64)))
     expected_packed_len = packed_num_bytes(num_values, packed_bits)
 
-    flat = arr.reshape((-1, num_values))
+    rows = int(np.prod(np.array(batch_shape, dtype=np.int64)))
+    flat = arr.reshape((rows, num_values))
 
-    if num_values == 0:
-        return jnp.zeros((flat.shape[0], expected_packed_len), dtype=jnp.uint8).reshape(
-            batch_shape + (expected_packed_len,)
-        )
+    if num_values == 0 or rows == 0:
+        return jnp.zeros(batch_shape + (expected_packed_len,), dtype=jnp.uint8)
 
     if packed_bits == 1:
         bits = flat
-- 
2.43.0


From 3357cbbabd4618786309b9238eba101790c41ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 17/30] fix: records with fields named file or allow_pickle can
 be saved

---
 xtructure/io/io.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index b7f6fd9..2607984 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -3,6 +3,7 @@
 import dataclasses
 import importlib
 import os
+import zipfile
 from typing import Any, Dict, Tuple
 
 import jax.numpy as jnp
@@ -75,6 +76,21 @@ def _flatten_instance_for_save(
     return flat_data
 
 
+def _write_npz(path: str, arrays: Dict[str, np.ndarray]):
+    """Write what ``np.savez_compressed`` writes, whatever the arrays are called.
+
+    NumPy takes the array names as keyword arguments, where a field named ``file``
+    or ``allow_pickle`` clashes with its own parameters.
+    """
+    path = os.fspath(path)
+    if not path.endswith(".npz"):
+        path = f"{path}.npz"
+    with zipfile.ZipFile(path, "w", compression=zipfile.ZIP_DEFLATED) as archive:
+        for key, array in arrays.items():
+            with archive.open(f"{key}.npy", "w", force_zip64=True) as entry:
+                np.lib.format.write_array(entry, np.asanyarray(array))
+
+
 def save(path: str, instance: Xtructurable, *, packed: bool = True):
     """
     Saves an xtructure dataclass instance to a compressed .npz file.
@@ -104,7 +120,7 @@ def save(path: str, instance: Xtructurable, *, packed: bool = True):
         os.makedirs(directory, exist_ok=True)
 
     # Save to a compressed .npz file
-    np.savez_compressed(path, **data_to_save)
+    _write_npz(path, data_to_save)
 
 
 def _unflatten_data_for_load(
-- 
2.43.0


From fecd5fd7d620b16b98fffd6e4822e0ae9325b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 18/30] fix: float8_e5m2 fields load again after saving

---
 xtructure/io/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 2607984..6260ab7 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -87,8 +87,13 @@ def _write_npz(path: str, arrays: Dict[str, np.ndarray]):
         path = f"{path}.npz"
     with zipfile.ZipFile(path, "w", compression=zipfile.ZIP_DEFLATED) as archive:
         for key, array in arrays.items():
+            array = np.asanyarray(array)
+            if array.dtype.isbuiltin == 2:
+                # Extension types (bfloat16, float8): npy headers cannot name them,
+                # and some come out unreadable. Their raw bytes always load.
+                array = array.view(np.dtype((np.void, array.dtype.itemsize)))
             with archive.open(f"{key}.npy", "w", force_zip64=True) as entry:
-                np.lib.format.write_array(entry, np.asanyarray(array))
+                np.lib.format.write_array(entry, array)
 
 
 def save(path: str, instance: Xtructurable, *, packed: bool = True):
-- 
2.43.0


From 4f000ea22ca636b7dd7d57cd3f0cb02d548f5d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 19/30] fix: shape of records whose tensor-of-records field is
 unstructured

---
 xtructure/core/xtructure_decorators/shape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/shape.py b/xtructure/core/xtructure_decorators/shape.py
index b6511dc..07bb5ba 100644
--- a/xtructure/core/xtructure_decorators/shape.py
+++ b/xtructure/core/xtructure_decorators/shape.py
@@ -82,7 +82,10 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
                 if default_shape_field == ():
                     batch_shapes.append(shape.batch)
                     shape = shape.__class__((), *shape[1:])
-                elif shape.batch[-len(default_shape_field) :] == default_shape_field:
+                elif (
+                    shape.batch != -1
+                    and shape.batch[-len(default_shape_field) :] == default_shape_field
+                ):
                     batch_shapes.append(shape.batch[: -len(default_shape_field)])
                     cuted_batch_shape = shape.batch[-len(default_shape_field) :]
                     shape = shape.__class__(cuted_batch_shape, *shape[1:])
-- 
2.43.0


From b503e803a779566edff313b6f7fbd04d9022ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 20/30] fix: records can be pickled after their shape was read

---
 xtructure/core/dataclass.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 7c1395f..6b68712 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -134,7 +134,10 @@ class _Dataclass:
             return dataclasses.replace(self, **kwargs)
 
         def _getstate(self):
-            return self.__dict__
+            # Derived shape/dtype caches are recomputed on demand (and not picklable).
+            return {
+                k: v for k, v in self.__dict__.items() if k not in _INTERNAL_CACHE_KEYS
+            }
 
         # Register the dataclass at definition. As long as the dataclass is defined
         # outside __main__, this is sufficient to make JAX's PyTree registry
-- 
2.43.0


From 83e3f3497a3a387eeaa307470fbc48924f95b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 21/30] fix: packed_tensor accepts a fill_value_factory

---
 xtructure/core/field_descriptors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/field_descriptors.py b/xtructure/core/field_descriptors.py
index 59cf579..639249d 100644
--- a/xtructure/core/field_descriptors.py
+++ b/xtructure/core/field_descriptors.py
@@ -27,6 +27,7 @@ def _packed_num_bytes(num_values: int, active_bits: int) -> int:
 
 # Represents a JAX dtype, can be a specific type like jnp.int32 or a more generic jnp.dtype
 DType = Any
+_UNSET = object()
 _FIELD_DESCRIPTOR_ATTR = "__xtructure_field_descriptors__"
 
 
@@ -210,7 +211,7 @@ class FieldDescriptor:
         unpacked_shape: Tuple[int, ...] | None = None,
         packed_bits: int,
         storage_dtype: DType = jnp.uint8,
-        fill_value: Any = 0,
+        fill_value: Any = _UNSET,
         fill_value_factory: Callable[[Tuple[int, ...], DType], Any] | None = None,
         validator: Callable[[Any], None] | None = None,
     ) -> "FieldDescriptor":
@@ -223,6 +224,10 @@ class FieldDescriptor:
         # API note:
         # - Prefer `shape=...` (consistent with FieldDescriptor.tensor).
         # - `unpacked_shape` is accepted for backward compatibility.
+        if fill_value is _UNSET:
+            # Zero bytes unless the caller chose another fill.
+            fill_value = 0 if fill_value_factory is None else None
+
         if shape is None and unpacked_shape is None:
             raise TypeError(
                 "packed_tensor requires `shape` (preferred) or `unpacked_shape`."
-- 
2.43.0


From de60fd02cf6f9d57f93cad8df4b35e316868943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:15 +0000
Subject: [PATCH 22/30] fix: random records keep within declared widths

---
 xtructure/core/xtructure_decorators/structure_util.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/structure_util.py b/xtructure/core/xtructure_decorators/structure_util.py
index ea73798..0a63616 100644
--- a/xtructure/core/xtructure_decorators/structure_util.py
+++ b/xtructure/core/xtructure_decorators/structure_util.py
@@ -66,6 +66,7 @@ def add_structure_utilities(cls: Type[T]) -> Type[T]:
                 actual_dtype_or_nested_dtype_tuple  # It's a single JAX dtype here
             )
             cfg["actual_dtype"] = actual_dtype  # Store the single JAX dtype
+            cfg["value_mask"] = None
 
             if jnp.issubdtype(actual_dtype, jnp.integer):
                 cfg["type"] = (
@@ -86,6 +87,11 @@ def add_structure_utilities(cls: Type[T]) -> Type[T]:
                     cfg["view_as_signed"] = (
                         True  # And then view them as the actual signed type
                     )
+                if descriptor.bits is not None:
+                    # A declared width promises values in [0, 2**bits).
+                    cfg["value_mask"] = min(
+                        (1 << descriptor.bits) - 1, int(jnp.iinfo(actual_dtype).max)
+                    )
             elif jnp.issubdtype(actual_dtype, jnp.floating):
                 cfg["type"] = "float"
                 cfg["gen_dtype"] = actual_dtype
@@ -125,6 +131,10 @@ def add_structure_utilities(cls: Type[T]) -> Type[T]:
                     generated_bits = jax.random.bits(
                         field_key, shape=target_shape, dtype=cfg["bits_gen_dtype"]
                     )
+                    if cfg["value_mask"] is not None:
+                        generated_bits = generated_bits & generated_bits.dtype.type(
+                            cfg["value_mask"]
+                        )
                     if cfg["view_as_signed"]:
                         data[field_name] = generated_bits.view(cfg["actual_dtype"])
                     else:
-- 
2.43.0


From 0d0f5a7d841e287f6d1b8c53400a52474653534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:16 +0000
Subject: [PATCH 23/30] fix: unpack_field slices stay within the field

---
 .../core/xtructure_decorators/aggregate_bitpack/__init__.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
index 09c31f4..8c09bf7 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
@@ -260,10 +260,7 @@ def add_aggregate_bitpack(cls: Type[T]) -> Type[T]:
         if indices is None:
             return jnp.arange(nvalues, dtype=jnp.int32)
         if isinstance(indices, slice):
-            start = 0 if indices.start is None else int(indices.start)
-            stop = nvalues if indices.stop is None else int(indices.stop)
-            step = 1 if indices.step is None else int(indices.step)
-            return jnp.arange(start, stop, step, dtype=jnp.int32)
+            return jnp.arange(*indices.indices(nvalues), dtype=jnp.int32)
         if isinstance(indices, (list, tuple, np.ndarray)):
             return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
         return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
-- 
2.43.0


From 622f321ba375803a241112a807b4c68b4cb58da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:12 +0000
Subject: [PATCH 24/30] fix: from_tuple rebuilds what to_tuple gave

---
 xtructure/core/dataclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 6b68712..d63280e 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -125,7 +125,7 @@ class _Dataclass:
             )
 
         def _from_tuple(args):
-            return dcls(zip(dcls.__dataclass_fields__.keys(), args))
+            return dcls(**dict(zip(dcls.__dataclass_fields__.keys(), args)))
 
         def _to_tuple(self):
             return tuple(getattr(self, k) for k in self.__dataclass_fields__.keys())
-- 
2.43.0


From 7dd19fac8f889daca1f22a2cb09a2bb21dcc33e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 25/30] fix: streaming hashes agree on records without items

With XTRUCTURE_HASH_STREAM=on a record whose fields hold no items at all
hashed differently from the other modes and from hash_with_uint32ed.
---
 xtructure/core/xtructure_decorators/hash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/hash.py b/xtructure/core/xtructure_decorators/hash.py
index a13e461..985e282 100644
--- a/xtructure/core/xtructure_decorators/hash.py
+++ b/xtructure/core/xtructure_decorators/hash.py
@@ -241,7 +241,7 @@ def byterize_hash_func_builder(x: Xtructurable):
     def _hash_streaming_from_leaves(flat_leaves, seed):
         """Hash without materializing the full concatenated uint32ed buffer."""
         seed_u32 = jnp.uint32(seed)
-        if len(flat_leaves) == 0:
+        if all(leaf.size == 0 for leaf in flat_leaves):
             return _avalanche32(seed_u32 ^ jnp.uint32(0x9E3779B1))
 
         combined = jnp.uint32(0)
@@ -265,7 +265,7 @@ def byterize_hash_func_builder(x: Xtructurable):
     def _hash_pair_streaming_from_leaves(flat_leaves, seed):
         """Hash pair without materializing the full concatenated uint32ed buffer."""
         seed_u32 = jnp.uint32(seed)
-        if len(flat_leaves) == 0:
+        if all(leaf.size == 0 for leaf in flat_leaves):
             h0 = _avalanche32(seed_u32 ^ jnp.uint32(0x9E3779B1))
             h1 = _avalanche32(seed_u32 ^ jnp.uint32(0x85EBCA6B))
             return h0, h1
-- 
2.43.0


From 431e54fc019557715a5a86405ee3e3063b1e5e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 26/30] fix: the loop merge kernel reads and writes refs by
 indexing (pl.load and pl.store are gone)

---
 xtructure/bgpq/merge_split/loop.py | 64 ++++++------------------------
 1 file changed, 12 insertions(+), 52 deletions(-)

diff --git a/xtructure/bgpq/merge_split/loop.py b/xtructure/bgpq/merge_split/loop.py
index 7d491be..f9ce2d0 100644
--- a/xtructure/bgpq/merge_split/loop.py
+++ b/xtructure/bgpq/merge_split/loop.py
@@ -26,18 +26,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             merged_indices_ref_from_cond,
         ) = cond_operands
         val_a_casted = val_a_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_a_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
+        merged_keys_ref_from_cond[current_out_ptr_val] = val_a_casted
+        merged_indices_ref_from_cond[current_out_ptr_val] = current_idx_a
         return current_idx_a + 1, current_idx_b
 
     def false_branch_body_fn(cond_operands):
@@ -52,18 +42,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             merged_indices_ref_from_cond,
         ) = cond_operands
         val_b_casted = val_b_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_b_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
-        )
+        merged_keys_ref_from_cond[current_out_ptr_val] = val_b_casted
+        merged_indices_ref_from_cond[current_out_ptr_val] = n + current_idx_b
         return current_idx_a, current_idx_b + 1
 
     initial_main_loop_state = (
@@ -90,8 +70,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_a = pl.load(loop_ak_ref, (idx_a,))
-        val_b = pl.load(loop_bk_ref, (idx_b,))
+        val_a = loop_ak_ref[idx_a]
+        val_b = loop_bk_ref[idx_b]
         pred = val_a <= val_b
 
         updated_idx_a, updated_idx_b = jax.lax.cond(
@@ -153,20 +133,10 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_to_store = pl.load(loop_ak_ref, (current_idx_a,))
+        val_to_store = loop_ak_ref[current_idx_a]
         val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
+        loop_merged_keys_ref[current_out_ptr] = val_casted
+        loop_merged_indices_ref[current_out_ptr] = current_idx_a
         return (
             current_idx_a + 1,
             current_out_ptr + 1,
@@ -206,20 +176,10 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_to_store = pl.load(loop_bk_ref, (current_idx_b,))
+        val_to_store = loop_bk_ref[current_idx_b]
         val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
-        )
+        loop_merged_keys_ref[current_out_ptr] = val_casted
+        loop_merged_indices_ref[current_out_ptr] = n + current_idx_b
         return (
             current_idx_b + 1,
             current_out_ptr + 1,
-- 
2.43.0


From 840c6f6c35d42273fd79f23d04bc76507cf4ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 27/30] fix: merging values on a GPU with an empty side (queues
 of batch size 1)

---
 xtructure/bgpq/merge_split/parallel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xtructure/bgpq/merge_split/parallel.py b/xtructure/bgpq/merge_split/parallel.py
index b213a8e..39a2035 100644
--- a/xtructure/bgpq/merge_split/parallel.py
+++ b/xtructure/bgpq/merge_split/parallel.py
@@ -336,6 +336,13 @@ def _get_merge_arrays_parallel_kv(
         ak = ak.astype(key_dtype)
         bk = bk.astype(key_dtype)
 
+        # As in the index variant: nothing to merge, and nothing the kernel could read.
+        if n == 0:
+            return bk, list(bv_leaves)
+
+        if m == 0:
+            return ak, list(av_leaves)
+
         total_len_padded = ((total_len + block_size - 1) // block_size) * block_size
         out_keys_shape_dtype = jax.ShapeDtypeStruct((total_len_padded,), key_dtype)
         out_val_shapes = [
-- 
2.43.0


From 105d5594f47982737941384eaca122be3cf1530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 28/30] fix: packing an empty batch with the Pallas back end

---
 .../core/xtructure_decorators/aggregate_bitpack/kernels.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/kernels.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/kernels.py
index df388e3..26d0709 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/kernels.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/kernels.py
@@ -148,8 +148,8 @@ def _get_pack_words_all_pallas(
         values_stream_u32 = jnp.asarray(values_stream_u32, dtype=jnp.uint32)
         flat_n = int(values_stream_u32.shape[0])
 
-        if words_all_len == 0:
-            return jnp.zeros((flat_n, 0), dtype=jnp.uint32)
+        if flat_n == 0 or words_all_len == 0:
+            return jnp.zeros((flat_n, words_all_len), dtype=jnp.uint32)
         if max_contrib == 0:
             return jnp.zeros((flat_n, words_all_len), dtype=jnp.uint32)
 
-- 
2.43.0


From 1d0695ca57a2aac0cb0854d32bb9b48a6ac4dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:53 +0000
Subject: [PATCH 29/30] fix: records whose hash pair is the sentinel are
 deduplicated exactly

---
 xtructure/hashtable/hash_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index 33094f1..9fd2c6f 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -253,6 +253,12 @@ def _compute_unique_mask_from_uint32eds(
                 lambda _: jnp.bool_(False),
                 operand=None,
             )
+            # Inactive rows carry the sentinel signature and may separate active rows
+            # with that very signature, so adjacency does not tell them apart.
+            is_sentinel = (h1 & h2 & h3 & h4) == sentinel
+            collision = jnp.logical_or(
+                collision, jnp.any(jnp.logical_and(filled, is_sentinel))
+            )
 
             sorted_indices, row_changed = jax.lax.cond(
                 collision,
@@ -498,6 +504,12 @@ def _compute_unique_mask_from_hash_pairs(
         collision = lax.cond(
             has_dups, _check_collision, lambda _: jnp.bool_(False), operand=None
         )
+        # Inactive entries carry the sentinel pair and may separate active entries with
+        # that very pair, so adjacency does not tell them apart.
+        is_sentinel = (h1 & h2) == sentinel
+        collision = jnp.logical_or(
+            collision, jnp.any(jnp.logical_and(filled, is_sentinel))
+        )
 
         def _fallback(_):
             return _compute_unique_mask_from_uint32eds(
-- 
2.43.0


From 6e2b44b128700426f22922bc56f14611f790c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:25 +0000
Subject: [PATCH 30/30] fix: take_along_axis with a mode or fill value moves
 whole records

---
 xtructure/core/xtructure_numpy/__init__.py           | 11 +++--------
 .../core/xtructure_numpy/dataclass_ops/batch_ops.py  | 12 ++++++++++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/__init__.py b/xtructure/core/xtructure_numpy/__init__.py
index a932779..787d134 100644
--- a/xtructure/core/xtructure_numpy/__init__.py
+++ b/xtructure/core/xtructure_numpy/__init__.py
@@ -162,14 +162,9 @@ def take(
 
 def take_along_axis(arr, indices, axis: int | None = -1, mode=None, fill_value=None):
     if _is_xtructurable(arr):
-        if mode is not None or fill_value is not None:
-            return jax.tree_util.tree_map(
-                lambda x: jnp.take_along_axis(
-                    x, indices, axis=axis, mode=mode, fill_value=fill_value
-                ),
-                arr,
-            )
-        return _dc.take_along_axis(arr, indices, axis=axis)
+        return _dc.take_along_axis(
+            arr, indices, axis=axis, mode=mode, fill_value=fill_value
+        )
     return jnp.take_along_axis(
         arr, indices, axis=axis, mode=mode, fill_value=fill_value
     )
diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index be03076..59ee381 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -208,7 +208,13 @@ def take(dataclass_instance: T, indices: jnp.ndarray, axis: int = 0) -> T:
     )
 
 
-def take_along_axis(dataclass_instance: T, indices: jnp.ndarray, axis: int) -> T:
+def take_along_axis(
+    dataclass_instance: T,
+    indices: jnp.ndarray,
+    axis: int,
+    mode: Any = None,
+    fill_value: Any = None,
+) -> T:
     """Gather values along a given axis for each field."""
     indices_array = jnp.asarray(indices)
 
@@ -239,7 +245,9 @@ def take_along_axis(dataclass_instance: T, indices: jnp.ndarray, axis: int) -> T
                 f"{leaf.shape} outside axis {axis}. Original indices shape: {indices_array.shape}."
             ) from err
 
-        return jnp.take_along_axis(leaf, expanded, axis=axis_in_leaf)
+        return jnp.take_along_axis(
+            leaf, expanded, axis=axis_in_leaf, mode=mode, fill_value=fill_value
+        )
 
     return jax.tree_util.tree_map(_reorder_leaf, dataclass_instance)
 
-- 
2.43.0

