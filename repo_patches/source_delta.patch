From 6cd24f4a3b785a2e1c90f79824bf31b546d10055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 01/10] fix: save the approximation flag while holding the lock

enable_approx() read the flag to restore before acquiring the lock, so a
thread waiting for another thread's scope would later 'restore' that
other scope's temporary value and leak it.
---
 differt2d/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 2cc0ac3..703ad0c 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -187,8 +187,8 @@ def enable_approx(enable: bool = True):
         0.0
     """
     global ENABLE_APPROX
-    state = ENABLE_APPROX
     with _LOCK:
+        state = ENABLE_APPROX
         try:
             ENABLE_APPROX = enable
             yield
-- 
2.43.0


From 94e7282702846e5534c1639eaac6e04c5c684dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 02/10] fix: do not crash on GeoJSON features that are not
 polygons

Reading the first ring of every geometry raised TypeError for Point
features and KeyError for GeometryCollection ones, although such
features are otherwise ignored.
---
 differt2d/scene.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 90769dc..eed911f 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -639,10 +639,11 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         for feature in features:
             if geometry := feature.get("geometry", None):
                 _type = geometry["type"]
-                coordinates = geometry["coordinates"][0]
-                n = len(coordinates)
 
                 if _type == "Polygon":
+                    coordinates = geometry["coordinates"][0]
+                    n = len(coordinates)
+
                     for i in range(n):
                         xys = jnp.array(
                             [coordinates[i - 1], coordinates[i]],
-- 
2.43.0


From e2d332a9c45ea0696c4941fe45dfb18039f00143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 03/10] fix: return the loss of the returned solution

minimize() returned the loss evaluated before the last update, which is
not the loss of the solution it returns (nor the one used to select the
best solution in minimize_many_random_uniform).
---
 differt2d/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index 91c1c9d..fe140af 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -93,8 +93,8 @@ def minimize(
         carry = (x, opt_state)
         return carry, loss
 
-    (x, _), losses = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
-    return x, losses[-1]
+    (x, _), _ = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
+    return x, fun(x, *args)
 
 
 @eqx.filter_jit
-- 
2.43.0


From 897a3a78b1625697ad2c3e31cd40d0671c3cd5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 04/10] fix: accumulate over every pair, even without path
 candidates

accumulate_over_paths() is documented to produce one element for each
(transmitter, receiver) pair, but produced none when no path candidate
matches the requested order (e.g., order=1 in an empty scene), whereas
the grid variants return zeros.
---
 differt2d/scene.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index eed911f..3b5a94c 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1304,13 +1304,17 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             fun_kwargs = {}
 
         def results() -> Iterator[tuple[str, str, Float[Array, " "]]]:
-            for (tx_key, rx_key), paths_group in groupby(
+            paths_groups = groupby(
                 self.all_paths(**kwargs),
                 operator.itemgetter(slice(2)),
-            ):
+            )
+            for (tx_key, transmitter), (
+                rx_key,
+                receiver,
+            ) in self.all_transmitter_receiver_pairs():
                 acc = jnp.array(0.0)
-                transmitter = self.transmitters[tx_key]
-                receiver = self.receivers[rx_key]
+                # There is no group at all if there are no path candidates
+                _, paths_group = next(paths_groups, (None, ()))
 
                 for _, _, valid, path, path_candidate in paths_group:
                     interacting_objects = self.get_interacting_objects(path_candidate)
-- 
2.43.0


From c78cf9e6ced21b2f06935007d4d890ba37a011d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 05/10] fix: call object filters on the actual objects of the
 scene

Scene.all_path_candidates() was jitted, so filter_objects was called on
traced objects (raising TracerBoolConversionError as soon as it looked
at coordinates), and its verdicts were cached. The expensive part, the
module-level all_path_candidates(), remains jitted and cached.
---
 differt2d/scene.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 3b5a94c..827fa38 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1087,7 +1087,6 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         """
         return product(self.transmitters.items(), self.receivers.items())
 
-    @eqx.filter_jit
     def all_path_candidates(
         self,
         min_order: int = 0,
-- 
2.43.0


From e5c8aa8be3f30ae2984fb21a14a65fc5f2430fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 06/10] fix: keep gradients finite at degenerate positions

normalize(), the Image method and path_length() guarded the value but not
the gradient against zero-length vectors and vanishing denominators (or
relied on an epsilon that rounding can cancel), so that a single
degenerate candidate turned the gradient of a whole map cell into NaN.
---
 differt2d/geometry.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index d65e811..92cd39f 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -181,9 +181,7 @@ def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
 
     .. note::
 
-        Currently, some epsilon value is added to each path segment to avoid
-        division by zero in the gradient of this function. Hopefully, this
-        should not be perceived by the user.
+        The gradient of this function is zero for segments of zero length.
 
     :param points: An array of points.
     :return: The path length.
@@ -197,8 +195,11 @@ def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
     Array(3.4142137, dtype=float32)
     """
     vectors = jnp.diff(points, axis=0)
-    vectors = vectors + jnp.finfo(points.dtype).eps
-    lengths = jnp.linalg.norm(vectors, axis=1)
+    # The norm is not differentiable at 0, so we never evaluate it there
+    squared_lengths = jnp.sum(vectors * vectors, axis=1)
+    is_zero = squared_lengths == 0.0
+    lengths = jnp.sqrt(jnp.where(is_zero, 1.0, squared_lengths))
+    lengths = jnp.where(is_zero, 0.0, lengths)
 
     return jnp.sum(lengths)
 
@@ -224,8 +225,10 @@ def normalize(vector: Float[Array, "2"]) -> tuple[Float[Array, "2"], Float[Array
     >>> normalize(zero)  # Special behavior at 0.
     (Array([0., 0.], dtype=float32), Array(1., dtype=float32))
     """
-    length = jnp.linalg.norm(vector)
-    length: Float[Array, " "] = jnp.where(length == 0.0, jnp.ones_like(length), length)
+    # The norm is not differentiable at 0, so we never evaluate it there
+    squared_length = jnp.sum(vector * vector)
+    squared_length = jnp.where(squared_length == 0.0, 1.0, squared_length)
+    length: Float[Array, " "] = jnp.sqrt(squared_length)
 
     return vector / length, length
 
@@ -1101,8 +1104,10 @@ class ImagePath(Path):
             v = p - point
             un = jnp.dot(u, n)
             vn = jnp.dot(v, n)
-            # Avoid division by zero
-            inc = jnp.where(un == 0.0, 0.0, vn * u / un)
+            # Avoid division by zero (in the gradient too)
+            un_is_zero = un == 0.0
+            un = jnp.where(un_is_zero, 1.0, un)
+            inc = jnp.where(un_is_zero, 0.0, vn * u / un)
             point = point + inc
             return point, point
 
-- 
2.43.0


From 748ee1122e4e4605848e00d08f550ecf7d2352f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 07/10] fix: let logical_all and logical_any reduce over any
 axes

---
 differt2d/logic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 703ad0c..77c120e 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -493,7 +493,7 @@ def logical_all(
     *x: Union[Truthy, float, bool],
     axis: Optional[Union[int, tuple[int, ...]]] = None,
     approx: Optional[bool] = None,
-) -> Truthy:
+) -> Union[Bool[Array, " *reduced"], Float[Array, " *reduced"]]:
     """
     Returns whether all values in ``x`` are true.
 
@@ -518,7 +518,7 @@ def logical_any(
     *x: Union[Truthy, float, bool],
     axis: Optional[Union[int, tuple[int, ...]]] = None,
     approx: Optional[bool] = None,
-) -> Truthy:
+) -> Union[Bool[Array, " *reduced"], Float[Array, " *reduced"]]:
     """
     Returns whether any value in ``x`` is true.
 
-- 
2.43.0


From 5d549aaef332da7c3391939f7d8a7997c84d24b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 08/10] fix: ignore the altitude of GeoJSON positions

---
 differt2d/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 827fa38..903032e 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -646,7 +646,7 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
 
                     for i in range(n):
                         xys = jnp.array(
-                            [coordinates[i - 1], coordinates[i]],
+                            [coordinates[i - 1][:2], coordinates[i][:2]],
                             dtype=float,
                         )
                         wall = Wall(xys=xys)
-- 
2.43.0


From 89486ad48323585453deec40e6b74e49472da8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 09/10] fix: accept empty GeoJSON polygons

---
 differt2d/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 903032e..b568e99 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -640,7 +640,7 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             if geometry := feature.get("geometry", None):
                 _type = geometry["type"]
 
-                if _type == "Polygon":
+                if _type == "Polygon" and geometry["coordinates"]:
                     coordinates = geometry["coordinates"][0]
                     n = len(coordinates)
 
-- 
2.43.0


From 99f47c7114d1d072bf2f64409d81e2be24a12e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:15 +0000
Subject: [PATCH 10/10] fix: keep minimize differentiable where the objective
 is flat

The default Adam optimizer divides by the square root of a running mean of
squared gradients, whose derivative is infinite at zero: when the gradients of
the objective function are exactly zero, differentiating the solution with
respect to 'args' returned NaN.
---
 differt2d/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index fe140af..9383d67 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -80,7 +80,9 @@ def minimize(
     >>> chex.assert_trees_all_close(x, 2.0 * jnp.ones(10), rtol=1e-2)
     >>> chex.assert_trees_all_close(y, 0.0, atol=1e-3)
     """
-    optimizer = optimizer or optax.adam(learning_rate=0.1)
+    # The tiny term under the root keeps the result differentiable, with respect
+    # to 'args', where the gradients of the objective function are exactly zero
+    optimizer = optimizer or optax.adam(learning_rate=0.1, eps_root=1e-30)
 
     f_and_df = jax.value_and_grad(fun)
     opt_state = optimizer.init(x0)
-- 
2.43.0

